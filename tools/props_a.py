"""Properties, part A: Gerber programs and shapes."""


def P(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook)
    if state:
        a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                why_tests_cant=why, anchors=a)


PROPS = [
    P('P01', 'Fixed-format coordinate numbers mean the same on reading and on writing',
      'For every coordinate format and every zero-suppression mode, a digit string denotes exactly the number the '
      'format defines, writing a number in a format and reading it back gives the number rounded to the grid of the '
      'format, and the two directions agree. The written text has exactly the digits the format and suppression '
      'mode call for.',
      ['inputs', 'configurations'],
      'all formats of 0..6 integer and 0..7 decimal digits, both suppression modes, all signs and legal spellings',
      'The tests list about a dozen values for a handful of formats; sign, format and suppression interact for '
      'every digit count.',
      ['gerber/utils.py'],
      [('parse_gerber_value', 'gerber/utils.py'), ('write_gerber_value', 'gerber/utils.py')],
      ['return values of the reading and writing functions', 'coordinates of parsed files']),
    P('P02', 'A Gerber program draws exactly what its modal state machine defines',
      'For every sequence of Gerber commands, the list of lines, arcs, flashes and regions obtained by reading the '
      'program (geometry, order, polarity, aperture) equals the one defined by the format\'s modal graphics state '
      '(current point, interpolation and quadrant mode, region mode, operation, polarity, aperture). Leaving a '
      'coordinate, operation or mode word out means that its modal value is used.',
      ['inputs', 'histories'],
      'all command sequences: closure of the modal state machine on a bounded coordinate grid, plus all sequences '
      'up to a fixed depth with no state merging',
      'The tests parse a few example files; the image depends on the whole history of modal commands.',
      ['gerber/rs274x.py', 'gerber/gerber_statements.py'],
      [('GerberParser.evaluate', 'gerber/rs274x.py'), ('GerberParser._evaluate_coord', 'gerber/rs274x.py'),
       ('GerberParser._find_center', 'gerber/rs274x.py'), ('CoordStmt.from_dict', 'gerber/gerber_statements.py')],
      ['primitives of the parsed file'],
      [('modal graphics state', 'position, interpolation, quadrant, region, operation, polarity, aperture',
        'attributes of GerberParser')]),
    P('P03', 'Every flash and stroke uses exactly the aperture its D-code defines',
      'A flash or stroke is drawn with the shape, dimensions, rotation and hole of the aperture that was selected '
      'at that moment, at the place of the operation and with the polarity then in force, whatever other apertures '
      'exist or are selected before and after. No flash or stroke alters an aperture definition.',
      ['inputs', 'histories'],
      'all standard templates on a parameter lattice, all ordered pairs of templates with all schedules of '
      'selections and operations up to a fixed length',
      'The tests build single apertures by hand; aliasing between definitions and drawn objects only shows in '
      'particular schedules.',
      ['gerber/rs274x.py', 'gerber/gerber_statements.py', 'gerber/primitives.py'],
      [('GerberParser._define_aperture', 'gerber/rs274x.py'), ('GerberParser._evaluate_coord', 'gerber/rs274x.py'),
       ('ADParamStmt.from_dict', 'gerber/gerber_statements.py')],
      ['primitives of the parsed file']),
    P('P04', 'Writing a Gerber file and reading it back preserves image and commands',
      'For every readable Gerber file and every output format able to represent its coordinates, the file written '
      'by the library reads back as the same commands and the same image. Writing a second time gives the same '
      'text.',
      ['inputs', 'configurations'],
      'every transition of the closed graphics state machine, every ordered pair (triple) of a catalogue of '
      'drawing and non-drawing commands, every aperture and macro, all output formats',
      'The tests round-trip single statements; interactions with modal context, number formatting and command '
      'boundaries are unbounded.',
      ['gerber/gerber_statements.py', 'gerber/am_statements.py', 'gerber/rs274x.py', 'gerber/utils.py'],
      [('to_gerber of all statements', 'gerber/gerber_statements.py'), ('GerberFile.write', 'gerber/rs274x.py'),
       ('AMPrimitive.to_gerber', 'gerber/am_statements.py')],
      ['text of the written file', 'primitives of the re-read file']),
    P('P05', 'Aperture macro arithmetic and variables follow the format',
      'Every macro expression evaluates to its arithmetic value with the precedence, signs and parentheses as '
      'written, variables have the value of the latest assignment or else of the aperture\'s parameter list '
      '(undefined ones are zero), and instantiating a macro never affects another instantiation of it.',
      ['inputs', 'programs', 'histories'],
      'all expression trees up to a fixed number of operators with all sign placements; all block sequences up to '
      'a fixed length, instantiated by two apertures with different parameters',
      'The tests evaluate a few expressions; precedence, sign and sharing errors need particular combinations.',
      ['gerber/am_read.py', 'gerber/am_eval.py', 'gerber/gerber_statements.py'],
      [('read_macro', 'gerber/am_read.py'), ('eval_macro', 'gerber/am_eval.py'),
       ('AMParamStmt.build', 'gerber/gerber_statements.py')],
      ['the modifiers of the primitives of the drawn macro flash']),
    P('P06', 'A flashed macro is exactly its primitives, placed at the flash point',
      'For every macro and every flash of it, the drawn shape consists of the macro\'s primitives with their '
      'geometry, rotation about the macro origin and exposure as the format defines, translated to the flash '
      'point.',
      ['inputs', 'programs'],
      'every primitive kind on a lattice of geometry, rotation and exposure; ordered pairs and triples; several '
      'flashes, both units and polarities',
      'The tests check one example per primitive; rotation and placement errors vanish at the values used there.',
      ['gerber/am_statements.py', 'gerber/primitives.py', 'gerber/rs274x.py'],
      [('to_primitive of the macro primitives', 'gerber/am_statements.py'), ('AMGroup', 'gerber/primitives.py')],
      ['vertices, positions and bounding boxes of the flashed groups']),
    P('P07', 'Unit conversion and translation never change what a Gerber file draws',
      'After any history of unit conversions, translations, copying operations and rewriting, a Gerber file draws '
      'the original image scaled by the exact unit factor and translated by the accumulated offset, its reported '
      'units agree with its numbers, and its extents follow. Copying operations leave their source untouched.',
      ['histories', 'inputs'],
      'all histories up to a fixed length of seven operations over documents that cover every command and aperture',
      'The tests convert single primitives once; conversion flags, shared sub-objects and written state only go '
      'wrong in particular histories.',
      ['gerber/rs274x.py', 'gerber/primitives.py', 'gerber/gerber_statements.py', 'gerber/am_statements.py',
       'gerber/operations.py', 'gerber/cam.py'],
      [('GerberFile.to_inch/to_metric/offset', 'gerber/rs274x.py'), ('Primitive.to_inch/to_metric',
       'gerber/primitives.py'), ('copying operations', 'gerber/operations.py')],
      ['primitives, bounds, bounding_box, units and written text of the file'],
      [('units', 'unit in which each object states its numbers', 'Primitive.units, GerberFile.units')]),
]
