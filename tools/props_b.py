"""Properties, part B: shapes, drill files, drawing backends that write files."""
from props_a import P

PROPS = [
    P('P09', 'Reported extents and corners are those of the shape',
      'For every primitive kind, size, position, rotation, pen and arc, the reported bounding box contains the whole '
      'shape and is exactly its extent (rotated diamonds, obrounds, rounded and chamfered rectangles and polygons may '
      'report the box of the enclosing rectangle or circle); the box without the pen is that of the centre line; '
      'corner points and segments are those of the shape; and the box of a file is the union over its objects.',
      ['inputs'],
      'a lattice of sizes, positions, rotations over the full turn in both directions, arc angles, directions, '
      'quadrant modes and pens for every primitive kind; all pairs of drawing pieces as files',
      'The tests compute one or two boxes per kind at convenient angles; the quadrant and direction cases of arcs and '
      'rotations multiply.',
      ['gerber/primitives.py', 'gerber/rs274x.py', 'gerber/cam.py'],
      [('bounding_box and vertices of every primitive', 'gerber/primitives.py'),
       ('GerberFile.bounding_box and bounds', 'gerber/rs274x.py')],
      ['bounding_box, bounding_box_no_aperture, vertices, segments, bounds, size']),
    P('P10', 'What a shape reports follows from its current attributes only',
      'Whatever a shape was asked or had done to it before (queries, attribute changes, translations, unit '
      'conversions, in any order), every derived quantity equals that of a newly made shape with the same attributes. '
      'No query changes a shape and no stale remembered value is ever reported.',
      ['histories'],
      'all histories up to a fixed length of attribute changes, translations, conversions and queries, for every '
      'shape kind, with queries in between or only at the end',
      'Remembered results are invalidated by hand in each setter; the tests query each shape once after construction.',
      ['gerber/primitives.py'],
      [('Primitive._changed and the remembered _bounding_box, _vertices, _segments', 'gerber/primitives.py')],
      ['all derived properties of the primitives'],
      [('remembered geometry', 'cached derived values', 'Primitive._bounding_box, _vertices, _segments')]),
    P('P11', 'A drill program drills exactly what its modal state machine defines',
      'For every sequence of Excellon commands, the holes and slots obtained by reading the program (place, tool and '
      'diameter, order, plating) equal those defined by the modal state of the format: current position, tool, '
      'drilling or routing mode, tool depth, absolute or incremental notation (ICI, G90, G91), units and number format. Comments, '
      'blank lines and the layout of the text mean nothing.',
      ['inputs', 'histories'],
      'closure of the modal machine on a bounded grid; all command sequences up to a fixed depth from several '
      'prefixes; all combinations of header forms, program pieces and layouts',
      'The tests parse single statements and a few example files; the holes depend on the whole history of modal '
      'commands.',
      ['gerber/excellon.py', 'gerber/excellon_statements.py'],
      [('ExcellonParser._parse_line', 'gerber/excellon.py'),
       ('CoordinateStmt.from_excellon', 'gerber/excellon_statements.py'),
       ('SlotStmt.from_excellon', 'gerber/excellon_statements.py')],
      ['hits, primitives and tools of the parsed file'],
      [('modal drill state', 'position, tool, mode, notation, units, format', 'attributes of ExcellonParser')]),
    P('P12', 'Writing a drill file and reading it back preserves holes, slots and tools',
      'For every readable drill file, the file written by the library reads back with the same holes and slots in the '
      'same order, the same tools with all their parameters, and the same units and number format; writing again '
      'gives the same text.',
      ['inputs', 'configurations'],
      'every transition of the closed drilling machine; all combinations of header forms, pieces and layouts; all '
      'combinations of tool parameters in all formats',
      'The tests round-trip single statements and one file.',
      ['gerber/excellon.py', 'gerber/excellon_statements.py'],
      [('ExcellonFile.write', 'gerber/excellon.py'), ('ExcellonTool.to_excellon', 'gerber/excellon_statements.py'),
       ('DrillSlot.to_excellon', 'gerber/excellon.py')],
      ['text of the written file', 'holes, tools and settings of the re-read file']),
    P('P13', 'Unit conversion and translation never move or resize a hole',
      'After any history of unit conversions, translations, copying operations and rewriting of a drill file, its '
      'holes, slots, tools, drawable objects and extents are the original ones scaled by the exact unit factor and '
      'moved by the accumulated offset, and the units it reports agree with its numbers. Copying operations leave '
      'their source untouched.',
      ['histories', 'inputs'],
      'all histories up to a fixed length of nine operations over documents covering all kinds of holes and slots',
      'The tests convert one file once; the same hole is held by statements, hits and tools that are converted '
      'separately.',
      ['gerber/excellon.py', 'gerber/excellon_statements.py', 'gerber/operations.py', 'gerber/primitives.py'],
      [('ExcellonFile.to_inch/to_metric/offset', 'gerber/excellon.py'),
       ('DrillHit and DrillSlot conversions', 'gerber/excellon.py'), ('operations', 'gerber/operations.py')],
      ['hits, tools, primitives, bounds, units and written text'],
      [('units', 'unit of every number held by the file', 'ExcellonFile.units, ExcellonTool.units, statement units')]),
    P('P14', 'Drill counts, path lengths, reports and tool updates agree with the holes',
      'After any history of tool updates, conversions, translations and rewriting, hole counts, path lengths (total '
      'and per tool), the drill report and the tool table state exactly what the holes of the file are, and a tool '
      'update changes exactly the named parameters of the named tool, everywhere it is used.',
      ['histories', 'inputs'],
      'all histories up to a fixed length of ten operations on documents covering all kinds of holes and slots',
      'The tests check the totals of one example file; several copies of tool and hit data must stay in step.',
      ['gerber/excellon.py', 'gerber/excellon_statements.py'],
      [('ExcellonFile.hit_count, path_length, report, update', 'gerber/excellon.py')],
      ['hit_count, path_length, report, tools, written text']),
    P('P15', 'What a drill file declares about its numbers is always obeyed',
      'Units, zero suppression and number format declared by a drill file in any of the supported ways (unit '
      'statements, M71/M72, FMAT, FILE_FORMAT comments) decide how all its numbers are read, by every entry point; '
      'what the file leaves open is completed by one admissible choice, the same for every entry point and layout.',
      ['inputs', 'configurations'],
      'all combinations of declaration forms, orders, bodies, layouts and entry points',
      'The tests check the detected format of one file.',
      ['gerber/excellon.py', 'gerber/excellon_statements.py', 'gerber/common.py'],
      [('detect_excellon_format', 'gerber/excellon.py'), ('read and loads', 'gerber/excellon.py, gerber/common.py'),
       ('UnitStmt.from_excellon', 'gerber/excellon_statements.py')],
      ['holes and settings of the parsed file']),
    P('P20', 'Rendering a Gerber file to a Gerber file draws the same image',
      'For every readable Gerber file, the program written by the Gerber drawing backend draws the same objects in '
      'the same order, with the same geometry, polarity and apertures. Different apertures never share a definition '
      'and rendering does not change the rendered file.',
      ['inputs', 'configurations'],
      'every transition of the closed graphics state machine; all sequences of drawing pieces; all ordered pairs '
      '(triples) of apertures and of macro variants that differ in one parameter',
      'The tests render a few single shapes; the backend keeps its own modal state and aperture tables.',
      ['gerber/render/rs274x_backend.py', 'gerber/primitives.py'],
      [('Rs274xContext', 'gerber/render/rs274x_backend.py'), ('equivalent', 'gerber/primitives.py')],
      ['text of the rendered program', 'primitives of the re-read program'],
      [('backend modal state', 'position, function, quadrant mode, aperture, polarity, aperture tables',
        'attributes of Rs274xContext')]),
    P('P21', 'Rendering a drill file to a drill file drills the same holes in order',
      'For every readable drill file, and every output format able to represent its coordinates, the program written '
      'by the drill drawing backend makes the same holes and slots, with the same tools, in the same order.',
      ['inputs', 'configurations'],
      'all sequences of holes and slots of both kinds up to a fixed length with two tools; all combinations of '
      'program pieces and output formats',
      'The tests hold no drill rendering at all.',
      ['gerber/render/excellon_backend.py', 'gerber/excellon.py'],
      [('ExcellonContext', 'gerber/render/excellon_backend.py')],
      ['text of the rendered program', 'holes of the re-read program'],
      [('backend modal state', 'position, tool, drilling or routing mode', 'attributes of ExcellonContext')]),
    P('P25', 'The outline swept by a polygonal pen is the convex hull of both pens',
      'The convex hull of any point set is its convex hull, whatever the order and multiplicity of the points, and the '
      'outline of a stroke with a pen of straight edges is the hull of the pen placed at its two ends.',
      ['inputs'],
      'all point sequences of small grids under several affine placements; all strokes of a lattice of directions and '
      'pens',
      'The tests check one hull; degenerate and collinear point sets are the hard ones.',
      ['gerber/utils.py', 'gerber/primitives.py'],
      [('convex_hull', 'gerber/utils.py'), ('Line.vertices', 'gerber/primitives.py')],
      ['return value of convex_hull', 'Line.vertices']),
    P('P28', 'Tools of tool tables and comments have the stated size, plating and units',
      'A tool defined by a separate tool table, by comments or by a drill parameter file has exactly the size, '
      'plating and units stated there, in every file that uses the table, and processing one file never changes the '
      'table or another file.',
      ['inputs', 'histories'],
      'all row forms, sizes, marks and units; all distributions of definitions over header, comments and table; all '
      'histories of files sharing a table up to a fixed length',
      'The tests hold two example files for the table and one history.',
      ['gerber/excellon.py', 'gerber/excellon_tool.py', 'gerber/excellon_settings.py', 'gerber/ncparam/allegro.py'],
      [('ExcellonToolDefinitionParser', 'gerber/excellon_tool.py'), ('ExcellonParser._get_tool', 'gerber/excellon.py'),
       ('parse_allegro_ncparam', 'gerber/ncparam/allegro.py')],
      ['tools of the parsed table and files'],
      [('tool table', 'shared definitions', 'tools argument of ExcellonParser')]),
    P('P29', 'The pictures of a board show its sides, every layer in its place',
      'For every board directory and theme, gerber-render (and PCB views drawn with render_layers) writes one picture of '
      'each side and of the copper that has layers, named after the output file: each shows exactly the layers of that '
      'side, outline first, copper, holes, mask and silk screen, with the settings of the theme, inverted for masks; the '
      'bottom is mirrored as a whole, its holes and outline included, so all layers register; scale is the largest whole '
      'number of pixels per unit that fits the size asked for. A list of files is drawn in order into one picture over '
      'the background of the theme.',
      ['inputs', 'configurations'],
      'all sets of files of a board directory, themes, sizes, units and options; all lists of files up to a fixed length',
      'The tests run no command and compare no board pictures.',
      ['gerber/__main__.py', 'gerber/pcb.py', 'gerber/render/theme.py', 'gerber/render/cairo_backend.py'],
      [('main', 'gerber/__main__.py'), ('THEMES', 'gerber/render/theme.py'),
       ('render_layers', 'gerber/render/cairo_backend.py')],
      ['files written and their pixels']),
]
