"""Properties, part C: netlists, layers and boards, formats, program layout."""
from props_a import P

PROPS = [
    P('P16', 'A netlist record is decoded exactly as IPC-D-356 defines it',
      'For every test record (any net name, component, pin, hole, plating, access side, place, pad size, rotation, mask '
      'and units, padded with blanks or zeros and cut off after any field), outline, conductor and adjacency record, '
      'the decoded fields and shapes are those of the format. Net name variables are replaced, continuation lines '
      'belong to the record before, and the nets, vias, components and test points of the file agree with its records.',
      ['inputs', 'histories'],
      'lattice of all fields of the records; all sequences of lines of a catalogue up to a fixed length after several '
      'prologues',
      'The tests decode one example file; columns, optional fields and state carried between records multiply.',
      ['gerber/ipc356.py'],
      [('IPC356_TestRecord.from_line', 'gerber/ipc356.py'), ('IPC356Parser.parse_line', 'gerber/ipc356.py'),
       ('IPCNetlist.nets, vias, components', 'gerber/ipc356.py')],
      ['test_records, outlines, nets, vias, components, primitives'],
      [('parser state', 'units, angle units, net name variables, record to be continued', 'IPC356Parser')]),
    P('P17', 'The class of a layer is that of the first hint that fits the file',
      'For every file name, directory, letter case and content, the guessed layer class is that of the first entry of '
      'the hint table (including entries a user adds) whose extension, name, regular expression or content fits; '
      'directories and partial words never matter; files that fit nothing are unknown; and the layer object made from '
      'the file has this class.',
      ['inputs', 'configurations'],
      'all extensions and names of the hint table in all layouts of file names, pairs of hints, and user-made hints at '
      'both ends of the table',
      'The tests try a handful of names per class; the hints interact through order and substrings.',
      ['gerber/layers.py'],
      [('guess_layer_class, _layer_class_from_filename', 'gerber/layers.py'), ('load_layer, PCBLayer.from_cam',
                                                                              'gerber/layers.py')],
      ['guess_layer_class, load_layer, PCBLayer.layer_class']),
    P('P18', 'A board has each layer once, stacked in order, and views select by side',
      'For every set of layers or directory of files, the board holds exactly the layers of the readable files; '
      'sorting is a permutation that follows the physical stack (internal layers by their numbers, in either '
      'direction); the top, bottom, copper, drill, outline and netlist views select exactly their classes from top to '
      'bottom or outward in; layer count and board extents agree with them. The board is named as told, else after its files when all have one name (without extension and class hint), else after the directory.',
      ['inputs', 'configurations'],
      'all multisets of layer classes up to a fixed size in all orders; all sets of files of a catalogue in all listing '
      'orders; all orders of internal layer numbers',
      'The tests build no boards from directories and sort one list.',
      ['gerber/pcb.py', 'gerber/layers.py'],
      [('PCB.from_directory and the layer views', 'gerber/pcb.py'), ('sort_layers', 'gerber/layers.py')],
      ['PCB.layers, top_layers, bottom_layers, drill_layers, copper_layers, outline_layer, layer_count, board_bounds, '
       'sort_layers']),
    P('P27', 'Layout and spelling of a Gerber program do not change what it draws',
      'Line ends, the number of commands per line and of parameters per block, blocks over several lines, blanks, empty '
      'commands, comments, unknown commands, leading zeros of codes, function codes on their own, repeated or omitted '
      'modal words and a missing end command never change the image or the units of a program, through the Gerber '
      'reader or the common entry point.',
      ['inputs'],
      'all combinations of the layout options for a set of documents; every transition of the closed graphics-state '
      'machine in every spelling of the modal words',
      'The tests read a few files of a few CAD programs; each writes its files differently.',
      ['gerber/rs274x.py', 'gerber/utils.py', 'gerber/common.py'],
      [('GerberParser._split_commands, _parse', 'gerber/rs274x.py'), ('detect_file_format', 'gerber/utils.py')],
      ['primitives and units of the parsed file']),
    P('P19', 'Every entry point reads a file as the format its content shows',
      'gerber.read, gerber.loads, the read and loads functions of each format and load_layer agree on the same content: '
      'the format is the one its first tell-tale line shows, the result has the same objects, units and text through '
      'every entry point, with any line ends, file name and extension; content of no known format is refused with the '
      'documented error and never half-read.',
      ['inputs', 'configurations'],
      'all combinations of contents, prologues, line ends, file names and entry points',
      'The tests call each reader on its own files.',
      ['gerber/common.py', 'gerber/utils.py', 'gerber/layers.py'],
      [('read, loads', 'gerber/common.py'), ('detect_file_format', 'gerber/utils.py')],
      ['class, objects and text of what is read']),
    P('P22', 'A rendered picture shows what is dark, in order, and nothing else',
      'Every pixel of a rendered layer away from edges is covered exactly when the last object over its place is dark: '
      'for every kind of object, polarity, order, unit, scale and inverted or partial layers; the picture is the same '
      'size and place as the bounds; layers rendered later cover earlier ones; drills and slots are holes of their size.',
      ['inputs', 'configurations'],
      'all pairs and sequences of object kinds with polarities from a catalogue, scales and settings, compared pixel by '
      'pixel with a point-membership model',
      'The tests compare a few images with stored ones or only call the functions.',
      ['gerber/render/cairo_backend.py', 'gerber/render/render.py'],
      [('GerberCairoContext._render_*', 'gerber/render/cairo_backend.py'), ('GerberContext', 'gerber/render/render.py')],
      ['pixels of the output surface']),
    P('P23', 'Reading and querying are pure, and one file never affects another',
      'Any interleaving of reading, querying, writing, converting, translating and rendering of several files, boards '
      'and themes gives for each file the result it gives alone: no state is shared through parsers, default arguments, '
      'operations on drill files, hint tables, themes or rendering contexts; queries never change a file; an operation '
      'that returns a new file leaves its argument as it was.',
      ['histories'],
      'all interleavings of short operation histories of pairs of files; all repetitions of queries',
      'The tests use each object once.',
      ['gerber/rs274x.py', 'gerber/excellon.py', 'gerber/operations.py', 'gerber/layers.py', 'gerber/render/theme.py'],
      [('offset, translate, scale', 'gerber/operations.py'), ('Theme', 'gerber/render/theme.py')],
      ['text, objects, settings of each file after each step']),
    P('P24', 'File settings stay consistent under every history of assignments',
      'After any sequence of assignments and constructions, zero suppression and the zeros convention of a file or its '
      'settings are opposites, units, notation, format and angle units are those last validly set, invalid values are '
      'refused without changing anything, and equality, reading by key and attribute agree; a file reports the settings '
      'it was read with.',
      ['histories'],
      'closure of the settings state machine over all valid and invalid assignments; every constructor combination',
      'The tests set each attribute once.',
      ['gerber/cam.py'],
      [('FileSettings', 'gerber/cam.py'), ('CamFile', 'gerber/cam.py')],
      ['attributes, items and equality of FileSettings; settings of CamFile'],
      [('settings', 'notation, units, zero suppression, format, angle units', 'FileSettings')]),
    P('P26', 'A program split into include files draws what the whole program draws',
      'For every program and every way to move runs of its commands into include files (nested up to the documented '
      'depth, the same file several times, any directory of the top file), reading the top file gives the objects, '
      'units and apertures of the flattened program; deeper nesting is refused with an error.',
      ['inputs'],
      'all splits of several programs into up to two include files, nested or in sequence; all nesting depths up to '
      'beyond the limit',
      'No test reads an include file of more than one level.',
      ['gerber/rs274x.py'],
      [('GerberParser._parse, IF parameter', 'gerber/rs274x.py')],
      ['primitives, units and apertures of the parsed file']),
    P('P30', 'A rendering context holds valid settings and draws each object once',
      'After every history of assignments a rendering context, of the base class or of a backend, holds the last legal '
      'value of each setting (units, colours, alpha, inversion), and refuses illegal ones without any change. Rendering a '
      'Gerber or drill file through a context of any backend announces its extents, paints the background and starts a '
      'layer before the first object, then hands every object, in order and exactly once, to the drawing method of its kind '
      'between the calls before and after it, with the colour and inversion of the context, flattens the layer after the '
      'last one, and writes the named picture file once; a netlist draws exactly the test points of the wanted side. '
      'Drawing changes neither the file nor other settings, and nothing is left behind for the next file.',
      ['inputs', 'histories', 'configurations'],
      'closure of the settings record over all legal and refused assignments; all documents of catalogues through a '
      'recording backend, and all sequences of assignments and renderings up to a fixed length',
      'The tests assign a few colours to one object and never look at the calls a backend of a user receives.',
      ['gerber/render/render.py', 'gerber/cam.py', 'gerber/ipc356.py'],
      [('GerberContext.render and setters', 'gerber/render/render.py'), ('CamFile.render', 'gerber/cam.py'),
       ('IPCNetlist.render', 'gerber/ipc356.py')],
      ['attributes of the context, calls of the drawing methods of a GerberContext subclass']),
    P('P31', 'Every command of a drill file is kept with its kind and parameters',
      'Reading a drill program gives one statement for each command (a routing command with coordinates gives two: the mode '
      'and the coordinates), in order, of the kind of the command and with exactly its parameters: coordinates in the units and '
      'number format in force, tools with all their parameters, counts, rates, versions, comments and unknown commands with '
      'their text. Written out and read again, the statements are the same commands with the same holes. Unit '
      'conversions and translations change exactly their lengths and units. A file written by the library keeps the '
      'comments, declarations and unknown commands of its header in order. What the parser itself reports (coordinates, '
      'hole sizes, hole count, bounds) agrees with its statements.',
      ['inputs', 'histories'],
      'all transitions of the closed drilling machine, all combinations of header forms, pieces and layouts, all pairs of '
      'rarely used commands, all combinations of tool parameters, and all histories of conversions and translations up to a '
      'fixed length',
      'The tests make single statements of most kinds from one or two lines each; what the parser makes of a line depends on '
      'the modal state, the number format and the lines before.',
      ['gerber/excellon.py', 'gerber/excellon_statements.py'],
      [('ExcellonParser._parse_line', 'gerber/excellon.py'), ('ExcellonFile.write/_header_statements', 'gerber/excellon.py'),
       ('statement classes', 'gerber/excellon_statements.py')],
      ['ExcellonFile.statements', 'the text of each statement', 'files written']),
    P('P32', 'Every command of a Gerber file is kept with its kind and parameters',
      'Reading a Gerber file gives one statement for each command, in order, of the kind of the command and with exactly its '
      'parameters: format, zero suppression and notation; units; aperture codes, shapes and modifiers; macro names and '
      'text; image and level names, polarities, axis selection, rotation, mirroring (not mirrored where not given), offset (0 where '
      'not given) and scale factors (1 where not given); the function, coordinates, centre offsets and operation of coordinate commands (the modal operation '
      'where none is given); aperture selections; region and quadrant modes; comments and unknown commands with their '
      'text. A file written by the library has the same commands when it is read again. Unit conversions and translations '
      'change exactly lengths and units: scale factors, vertex counts and rotations stay, and '
      'translations move only coordinates, never centre offsets. The JSON dump and the text dump of the parser list the '
      'same statements.',
      ['inputs', 'histories'],
      'all transitions of the closed graphics-state machine, all pairs of rarely used commands, all forms of a coordinate '
      'command in all modal states, all format declarations, and all histories of conversions and translations up to a fixed length',
      'The tests make single statements of most kinds from one or two texts each; what the parser makes of a command depends on '
      'the modal state, the number format and the commands before.',
      ['gerber/rs274x.py', 'gerber/gerber_statements.py'],
      [('GerberParser._parse/evaluate/dump_json/dump_str', 'gerber/rs274x.py'), ('GerberFile.to_inch/to_metric/offset/write', 'gerber/rs274x.py'),
       ('statement classes', 'gerber/gerber_statements.py')],
      ['GerberFile.statements', 'files written', 'GerberParser.dump_json/dump_str']),
    P('P33', 'Of a cut-off file exactly the complete commands count; a failing write says so',
      'A Gerber file may end after any byte (an interrupted transfer, a crash of the program which wrote it): reading what is '
      'left raises no error and gives exactly the objects and the statements of the commands that are complete, whatever '
      'the incomplete command at the end holds; a region which was not ended draws nothing. A drill file may end after any '
      'line, with exactly the holes, slots and routed moves of the commands up to there; where it ends within a line, '
      'reading may be refused, or else the holes of the commands before that line are all there, first and unchanged. A write that fails '
      'after any number of bytes (a full disk, a directory that does not exist) raises an error, leaves the file in memory '
      'as it was and on disk nothing but the old content or a beginning of the new one; the next write that succeeds '
      'writes everything.',
      ['crash_points', 'inputs'],
      'every byte at which a Gerber file, every line and byte at which a drill file of a catalogue of documents and layouts '
      'ends, and every byte at which a write fails',
      'The tests read complete files only and never let a write fail.',
      ['gerber/rs274x.py', 'gerber/excellon.py'],
      [('GerberParser._split_commands/_parse', 'gerber/rs274x.py'), ('GerberFile.write', 'gerber/rs274x.py'),
       ('ExcellonParser.parse_raw', 'gerber/excellon.py'), ('ExcellonFile.write', 'gerber/excellon.py')],
      ['objects and statements of the file read', 'errors of write', 'the file on disk']),
]
