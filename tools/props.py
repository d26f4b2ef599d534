"""Single source of properties.jsonl and MANIFEST.json (run tools/gen.py)."""
P = []


def prop(id, title, statement, over, text, why, files, mech, level='proof',
         note='', na=None, observe=None, done=True):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mech=mech, level=level,
                  note=note, na=na, observe=observe or [], done=done))


prop('M01', 'Matrix operations post-multiply by the operation\'s own matrix',
     'Every geometric operation of the matrix type (translate, scale, 3d '
     'scale, rotate about z and about x/y/z, rotate from a vector, rotate '
     'about an axis, skew x/y, flip x/y, multiply) gives '
     'exactly the receiver multiplied by that operation\'s textbook matrix, '
     'with omitted arguments defaulted as documented. The in-place form '
     'returns the receiver holding that product; the other form returns a '
     'new matrix and leaves the receiver unchanged.',
     ['inputs'], 'all 2d and 3d receivers, all real arguments and angles, '
     'all arities',
     'The tests multiply a handful of literal matrices; the statement is '
     'about every matrix and argument, where cross terms that vanish for the '
     'sampled values matter.',
     ['svgpy/geometry/matrix.py', 'svgpy/transform.py'],
     [('DOMMatrix.*_self / DOMMatrixReadOnly.*', 'svgpy/geometry/matrix.py'),
      ('matrix2d / matrix3d helpers', 'svgpy/geometry/matrix.py')])

prop('M02', 'Matrix product is composition; identity and associativity hold',
     'Transforming a point by the product of two matrices equals '
     'transforming it by the second and then the first; the identity matrix '
     'is neutral and the product is associative. A matrix given by 6 numbers '
     'and the same matrix given by its 16 numbers behave alike as operands, '
     'and operands of a product that is not in-place are never modified.',
     ['inputs'], 'all pairs/triples of 2d and 3d matrices and all points',
     'Composition laws quantify over all matrices; tests compare single '
     'literal products.',
     ['svgpy/geometry/matrix.py'],
     [('DOMMatrixReadOnly.multiply, __mul__, __imul__, transform_point, '
       'multiply_self', 'svgpy/geometry/matrix.py')])

prop('M03', 'Matrix components, 2d flag and conversions stay consistent',
     'The two-dimensional names a-f are the 3d components m11, m12, m21, '
     'm22, m41, m42, whichever way they are written, and a matrix that '
     'reports being 2d has identity values in all 3d-only components after '
     'any operation or assignment. Constructing from 6 or 16 numbers, and '
     'converting to list, dict, JSON or array and back, preserves every '
     'component and the flag; the dict form with contradictory aliases or '
     'an inconsistent flag is rejected.',
     ['inputs', 'histories'], 'all component values, all assignments, all '
     'dictionaries of components',
     'The flag invariant must survive any sequence of operations; tests look '
     'at literals after single calls.',
     ['svgpy/geometry/matrix.py'],
     [('matrix component properties, from_float_array, from_matrix, tolist, '
       'tojson, is2d, is_identity', 'svgpy/geometry/matrix.py')])

prop('M04', 'Inverting a matrix really undoes it',
     'For every invertible matrix the inverse multiplied with it, on either '
     'side, is the identity, the result of the in-place form equals that of '
     'the other form, and only the in-place form changes the receiver. A '
     'singular matrix (one with zero determinant, as far as floating point '
     'tells) is reported by an error and not silently inverted.',
     ['inputs'], 'all 2d and 3d matrices',
     'Tests invert a few well-conditioned literals.',
     ['svgpy/geometry/matrix.py'],
     [('inverse, invert_self', 'svgpy/geometry/matrix.py')])

prop('M05', 'Angle, scale and translation read from a matrix are its own',
     'The translation read from a matrix is its translation column, the '
     'scale its axis lengths (never negative), and the angle of a 2d matrix '
     'the turn of its x axis, so a matrix composed of a translation, a '
     'rotation and a scaling by positive factors reads back exactly those; a '
     'rotation of a 3d matrix about one axis by less than a quarter turn '
     'reads back as that angle about that axis.',
     ['inputs'], 'all matrices, angles in every quadrant, all scale factors',
     'Tests read back a few literals; quadrant and sign errors hide between '
     'them.',
     ['svgpy/geometry/matrix.py'],
     [('get_angle, get_scale, get_translate', 'svgpy/geometry/matrix.py')])

prop('T01', 'A transform list\'s matrix is the ordered product of its items',
     'The matrix of a transform list is the product of its items\' matrices '
     'from first to last, for a list of any length, and consolidating the '
     'list leaves that matrix unchanged in a list of one matrix item. List '
     'operations (index, insert, append, replace, delete, initialise, '
     'reverse, clear) behave as on an ordinary list and reject anything that '
     'is not a transform.',
     ['inputs', 'histories'], 'all lists of transforms, of any length, and '
     'all operation sequences on them',
     'Length is unbounded; the tests use lists of one to four items.',
     ['svgpy/transform.py'],
     [('SVGTransformList.matrix, consolidate, create_svg_transform_from_'
       'matrix', 'svgpy/transform.py')])

prop('T02', 'A transform\'s type, values, angle and matrix always agree',
     'After setting a transform to translate, scale, rotate (with or without '
     'centre), skewX, skewY or matrix, its type, its listed values, its '
     'angle and its matrix all describe that same transformation, whatever '
     'it was before. Parsing a transform attribute and writing it back gives '
     'the same list of transforms, to the printed precision.',
     ['inputs', 'histories'], 'all numeric arguments and all previous states',
     'Tests set one literal each.',
     ['svgpy/transform.py'],
     [('SVGTransform.set_*', 'svgpy/transform.py'),
      ('SVGTransformList.parse', 'svgpy/transform.py')])

prop('R01', 'Rectangle operations are sound set operations on the plane',
     'Left and top of a rectangle are its position, right and bottom its '
     'position plus its size, and normalising gives the same region with '
     'non-negative size. The union with a point or rectangle is the smallest '
     'rectangle containing both (an operand without position adds nothing, a '
     'flat one counts as a segment or point); the intersection of '
     'rectangles whose interiors overlap is exactly their common part and '
     'otherwise leaves the receiver as it was; a rectangle with an area '
     'contains what lies within its coordinates. Translating, adjusting, '
     'transposing and the setters do exactly what they say, and only the '
     'in-place forms modify the receiver.',
     ['inputs'], 'all real rectangles and points',
     'Case splits on sign and relative position number in the dozens; tests '
     'cover a few.',
     ['svgpy/geometry/rect.py'],
     [('DOMRect.unite_self, intersect_self, adjust_self, translate_self, '
       'normalize, contains', 'svgpy/geometry/rect.py')])

prop('R02', 'A transformed rectangle is the tight box of its moved corners',
     'Transforming a rectangle by a 2d matrix gives exactly the axis-aligned '
     'bounding box of its four transformed corners.',
     ['inputs'], 'all rectangles and all 2d matrices, including rotations '
     'past 90 degrees and reflections',
     'Tests use small rotations and scales only.',
     ['svgpy/geometry/rect.py'],
     [('DOMRect.transform_self', 'svgpy/geometry/rect.py')])

prop('P01', 'Making a path segment absolute keeps what it draws',
     'For a segment of any of the twenty-two path commands met with any pen '
     'position and bearing, its absolute form is an upper-case command that '
     'draws the same line or curve from that pen position (relative numbers '
     'being offsets from the pen turned by the bearing). The given segment '
     'is never modified and an already absolute segment comes back equal.',
     ['inputs'], 'all commands, all numbers, all pen positions, all bearings',
     'Tests convert four literal curve segments, all with bearing 0.',
     ['svgpy/path.py'],
     [('PathSegment.toabsolute', 'svgpy/path.py')], done=True)

prop('P02', 'Normalising path data keeps the drawing and uses only M L C Z',
     'For any sequence of path segments beginning with a move, the '
     'normalised form uses only the absolute move, line, cubic and close '
     'commands and draws the same figure: same subpaths, same lines, same '
     'Bezier curves (smooth commands reflecting the previous control point '
     'only after a command of their own family, a move after a move drawing '
     'a line, bearing commands turning what follows but drawing nothing), '
     'and for arcs (that do not end where they start) cubics that follow '
     'the arc and end at its end point. The input is not modified.',
     ['inputs'], 'all path data: any length, any mix of the commands, any '
     'numbers',
     'What a segment draws depends on the whole history before it (pen '
     'position, subpath start, last control point, bearing); tests are fixed '
     'strings and the pairs of commands alone number hundreds.',
     ['svgpy/path.py'],
     [('PathParser.normalize, PathSegment.normalize, '
       'PathSegment.get_next_control_point', 'svgpy/path.py')], done=True)

prop('P03', 'Transforming path data transforms what it draws',
     'Applying a 2d matrix to path data without arcs yields path data that '
     'draws exactly the image under that matrix of what the original draws, '
     'for absolute and relative commands alike, in any order and number. '
     'The input path data and the matrix are not modified.',
     ['inputs'], 'all path data without arcs, all 2d matrices',
     'Tests transform a few polylines and curves by a few matrices; pen '
     'tracking across mixed relative/absolute commands is history dependent.',
     ['svgpy/path.py'],
     [('PathParser.transform, PathSegment.transform', 'svgpy/path.py')],
     done=True)

prop('P04', 'Path bounding box is the tight box of what the path draws',
     'The bounding box computed for normalised path data contains every '
     'point of every line and Bezier curve drawn, and each of its four sides '
     'is touched by the drawing.',
     ['inputs'], 'all normalised path data',
     'Extrema of curves lie at roots depending on control points; tests '
     'sample fixed curves.',
     ['svgpy/path.py', 'svgpy/geometry/rect.py'],
     [('PathParser.get_bbox, PathSegment.get_bbox, CubicBezierCurve',
       'svgpy/path.py')], done=True)

prop('P05', 'Path data text round-trips',
     'Writing any path data as text and parsing it again gives path data '
     'drawing the same figure to the printed precision, and parsing text '
     'yields exactly the commands and numbers written in it, with repeated '
     'argument groups read as repeated commands.',
     ['inputs'], 'all path data and all path data strings',
     'Number syntax (signs, exponents, omitted separators, repeated groups) '
     'combines without bound.',
     ['svgpy/path.py', 'svgpy/formatter.py'],
     [('PathParser.parse, PathParser.tostring, SVGPathSegment.tostring',
       'svgpy/path.py')], level='exploration', done=True)

prop('P06', 'Path length is the sum of the drawn pieces',
     'The total length of any path data is the sum of the lengths of what it '
     'draws: straight distances for lines and closing lines, the integral of '
     'the speed for Bezier curves, the arc length for arcs, and nothing for '
     'pen moves. So it is the same for the relative and the absolute '
     'spelling, does not change under translation and rotation, and a curve '
     'is never shorter than its chord.',
     ['inputs'], 'all path data',
     'Tests compare a few literals.',
     ['svgpy/path.py'],
     [('PathParser.get_total_length, PathSegment.get_length',
       'svgpy/path.py')], done=True)

prop('L01', 'Length units convert by the CSS ratios',
     'For every numeric value, a length in px, in, cm, mm, Q, pt or pc read '
     'in any other of these units is that value times the fixed CSS ratio, '
     'and converting there and back gives the original; a percentage or '
     'viewport or font relative length resolves to its share of the '
     'viewport dimension, diagonal or font size it refers to.',
     ['inputs'], 'all numbers, all pairs of units, all viewport sizes and '
     'font sizes', 'Tests sample literals for some unit pairs.',
     ['svgpy/core.py', 'svgpy/base.py'],
     [('SVGLength.value, convert', 'svgpy/core.py')], done=True)

prop('L02', 'Length arithmetic and comparison respect physical size',
     'Adding, subtracting, negating, scaling and comparing lengths of any '
     'units agrees with doing the same to their pixel sizes, the result '
     'keeping the left operand\'s unit, and no operator other than the '
     'in-place ones changes an operand.',
     ['inputs'], 'all numbers and unit pairs',
     'Tests use a few literals per operator.',
     ['svgpy/core.py'],
     [('SVGLength operators', 'svgpy/core.py')], done=True)

prop('C01', 'CSS numeric values obey the typed arithmetic algebra',
     'Building sums, products, negations, inversions, minima and maxima of '
     'CSS numeric values yields the type required by the typed-OM rules '
     '(types multiply, add or clash with an error), independently of operand '
     'order where the rules are symmetric, and never alters the operands or '
     'their types.',
     ['inputs'], 'all unit combinations and nesting of numeric values',
     'Types combine exponentially; tests check single combinations.',
     ['svgpy/css/types.py'],
     [('CSSNumericValue and subclasses', 'svgpy/css/types.py')])

prop('C02', 'CSS unit values convert exactly within their category',
     'Converting a CSS unit value to a compatible unit multiplies it by the '
     'fixed ratio, there-and-back is the identity, incompatible units are '
     'rejected, and sums collected into given units keep the total.',
     ['inputs'], 'all numbers, all pairs of units',
     'Tests sample literals.',
     ['svgpy/css/types.py'],
     [('CSSUnitValue.to, to_sum, create_sum_value', 'svgpy/css/types.py')])

prop('C03', 'Numeric expressions mean what their text says',
     'Reading a CSS numeric value gives a tree whose value is that of the '
     'text: multiplication and division before addition and subtraction, '
     'equal operators from the left, parentheses and calc() as one operand, '
     'every argument of min(), max() and clamp() an expression of its own, '
     'units and function names in any case, comments and white space '
     'ignored. The value keeps its text, and the tree written out reads back '
     'to the same value and type. Texts that are no expression, and sums of '
     'incompatible types, are refused.',
     ['inputs'], 'all expressions of any nesting and all numbers',
     'Expressions nest without bound; tests fix a dozen literals.',
     ['svgpy/css/types.py'],
     [('CSSNumericValue.parse, CSSMath*.tostring', 'svgpy/css/types.py')],
     level='exploration')

prop('Q01', 'Media queries evaluate by the CSS boolean logic rules',
     'A media query list matches exactly when one of its queries does; a '
     'query matches by its media type and by the and/or/not combination of '
     'its features; each range feature compares the environment\'s value '
     'with the given bound in exactly the written sense (min, max, <, <=, =, '
     '>, >=, double-sided).',
     ['inputs', 'configurations'], 'all queries and all screen/window '
     'configurations',
     'Queries nest without bound and every comparison has boundary cases.',
     ['svgpy/css/mediaquery.py'],
     [('MediaQuery', 'svgpy/css/mediaquery.py')])

prop('V01', 'Viewports, viewBox and element transforms map as specified',
     'For every svg element of given size, viewBox, alignment and meet/slice '
     'choice, the matrix from user space to the viewport scales uniformly so '
     'that the viewBox fits inside (meet) or covers (slice) the viewport, '
     'aligned at the chosen edges or centre; with alignment none it maps the '
     'viewBox onto the viewport exactly. The size of an svg element is its '
     'width and height converted to user units, percentages and viewport '
     'units of the outermost one being shares of the window. The matrix of '
     'an element to the screen is the product, from the outermost element '
     'in, of zoom and pan, transforms and viewport matrices; the one to its '
     'viewport starts at the innermost svg element.',
     ['inputs', 'configurations'], 'all viewport and viewBox sizes, units '
     'and alignments; all transforms of nested elements',
     'Twenty alignment/scaling cases times continuous sizes and units; '
     'tests check a few, in one unit.',
     ['svgpy/base.py'],
     [('get_viewport_transformation_matrix, get_viewport_size, _get_ctm, '
       'SVGPreserveAspectRatio', 'svgpy/base.py')],
     note='the CTM is proved for at most three nested elements, with longer '
     'chains run on real documents')

prop('G01', 'Basic shapes outline exactly their mathematical figure',
     'The path of a rectangle (sharp or rounded, radii clamped to half the '
     'sides), circle, ellipse, line, polyline or polygon visits exactly the '
     'points of that figure: corners, tangency points with the stated radii, '
     'centre distances, in order and closed where the shape is closed; '
     'radii left out or auto take the other one\'s value; disabled sizes give '
     'no path. A group draws its children in order, a use draws what it '
     'refers to moved by its x and y, and the transformed path of any of '
     'them is its path under its own transform, applied once.',
     ['inputs'], 'all numeric geometry, lengths with units and percentages, '
     'all groupings', 'Tests compare single literals.',
     ['svgpy/element.py', 'svgpy/base.py'],
     [('get_path_data of SVGRectElement, SVGCircleElement, '
       'SVGEllipseElement, SVGLineElement, SVGPolygonElement',
       'svgpy/element.py')], note='proved for single shapes; groups and uses by '
     'bounded executions on real documents')

prop('N01', 'Printed numbers are the value rounded to the set precision',
     'A number written into SVG text reads back as the value rounded to the '
     'configured number of decimals, without exponent, negative zero or '
     'superfluous zeros; sequences keep order and count.',
     ['inputs', 'configurations'], 'all numbers and precisions',
     'Rounding and zero trimming interact for every digit pattern.',
     ['svgpy/formatter.py'],
     [('format_number_sequence, format_coordinate_pair_sequence',
       'svgpy/formatter.py')], level='exploration', done=True)

prop('S01', 'Style shorthands and longhands stay in agreement',
     'Setting a shorthand sets every one of its longhands (to the given or '
     'the initial value), reading the shorthand back gives text that sets '
     'the same longhands again, and removing it removes them all; priority '
     'travels with them. The style attribute of an element and its style '
     'object always list the same declarations with the same values, '
     'whichever of the two was changed, and text with colons, semicolons, '
     'quotes, functions or comments in a value is read as one declaration.',
     ['inputs', 'histories'], 'all shorthands, values and edit sequences',
     'Component combinations multiply; tests list literals.',
     ['svgpy/css/shorthands.py', 'svgpy/css/__init__.py'],
     [('Shorthand.set_css_declaration and subclasses',
       'svgpy/css/shorthands.py'),
      ('CSSStyleDeclaration', 'svgpy/css/__init__.py'),
      ('_StyleAttribute', 'svgpy/css/__init__.py'),
      ('style_to_dict', 'svgpy/utils.py')],
     level='exploration')

prop('S02', 'Style sheets hold the rules their text says',
     'Reading a style sheet gives one rule for every valid rule of its text, '
     'in order and nested as written, and skips everything else without '
     'losing what follows: selectors, declarations with their priority, '
     'media queries, namespaces and font features are those of the text, '
     'every rule knows its sheet and its parent, and the text of a rule '
     'reads back to the same rule. insert_rule() and delete_rule() change '
     'exactly the place they name, a media list holds each query once in '
     'order, and CSS.escape() gives one identifier that stands for exactly '
     'the given characters.',
     ['inputs', 'histories'], 'all sheet texts, rule lists and names',
     'Sheets nest and interleave; tests read a few literal files.',
     ['svgpy/css/__init__.py', 'svgpy/utils.py', 'svgpy/style.py'],
     [('CSSParser.fromstring', 'svgpy/css/__init__.py'),
      ('CSSParser.parse_rules', 'svgpy/css/__init__.py'),
      ('CSSStyleSheet.insert_rule', 'svgpy/css/__init__.py'),
      ('MediaList', 'svgpy/css/__init__.py'),
      ('CSS.escape', 'svgpy/css/__init__.py'),
      ('CSSFontFeatureValuesRule', 'svgpy/css/__init__.py')],
     level='exploration')

prop('S03', 'Typed style values agree with the style they stand for',
     'Reading a declaration as typed values gives values whose text reads '
     'back to the declaration: values with var() become unparsed values '
     'whose pieces and references, joined, are the text with every '
     'reference and its fallback found at any depth and in any case; '
     'keywords, numbers with unit and others keep their value. A style map '
     'shows exactly the declarations of its style, and set, delete '
     'and clear change exactly the property named, in the map and in the '
     'style.',
     ['inputs', 'histories'], 'all declaration texts and map histories',
     'References nest without limit; tests use a few literal values.',
     ['svgpy/css/types.py', 'svgpy/css/props.py', 'svgpy/css/__init__.py'],
     [('CSSStyleValue.parse', 'svgpy/css/types.py'),
      ('CSSStyleValue.parse_all', 'svgpy/css/types.py'),
      ('CSSUnparsedValue', 'svgpy/css/types.py'),
      ('StylePropertyMap', 'svgpy/css/types.py')],
     level='exploration')

prop('S04', 'A property accepts the components its syntax names, and no '
     'others',
     'CSS.supports(property, value) is true exactly if every component value '
     'of the text is one the syntax of the property lists: a keyword in '
     'any case, a length, percentage, number or integer of a '
     'unit CSS has, a color, an URL, or if it is a single CSS-wide '
     'keyword or holds a var() reference; strings, unlisted keywords, '
     'dimensions of other kinds, empty values, blocks and values that do '
     'not parse are refused without an exception, and typed parsing '
     'agrees.',
     ['inputs'], 'all value texts of the supported properties',
     'A value is any sequence of components; tests use a few literal values.',
     ['svgpy/css/props.py', 'svgpy/css/__init__.py', 'svgpy/css/types.py'],
     [('PropertyDescriptor.support', 'svgpy/css/props.py'),
      ('PropertyDescriptor.supports', 'svgpy/css/props.py'),
      ('CSS.supports', 'svgpy/css/__init__.py'),
      ('CSSStyleValue.parse_all', 'svgpy/css/types.py')],
     level='exploration')

prop('T03', 'Text content is the text of the document with white space '
     'processed',
     'get_chars() of a text or span is the characters its document gives it '
     'and the spans inside it, in order, with white space collapsed, removed '
     'or preserved as the white-space property of each run says, across the '
     'borders of spans; comments, processing instructions, descriptive '
     'elements and elements not displayed add nothing and lose nothing '
     'behind them. get_number_of_chars() counts those characters, '
     'text_content is the text as written, and setting it replaces exactly '
     'what the element holds.',
     ['inputs'], 'all texts, spans and white-space values',
     'Runs, spans and white space combine without limit; tests sample a few '
     'documents.',
     ['svgpy/text.py', 'svgpy/core.py', 'svgpy/dom.py'],
     [('SVGTextContentElement.get_chars', 'svgpy/text.py'),
      ('SVGTextContentElement._get_descendant_chars', 'svgpy/text.py'),
      ('CSSUtils.normalize_text_content', 'svgpy/core.py'),
      ('Element._get_text_content', 'svgpy/dom.py')],
     level='exploration')

prop('F01', 'Text is shaped with the features and fonts its properties ask for',
     'For every text the features handed to the shaper are exactly those of '
     'its computed font-variant-ligatures, -caps, -numeric, -east-asian, '
     '-alternates, -position and font-kerning, each keyword giving its '
     'OpenType features (and none when normal), with the tags listed in '
     'font-feature-settings above them with their values, in any '
     'combination, whether written as longhands or with the font-variant '
     'shorthand, on the text or inherited from its parent. The computed '
     'font-family is the list of family names as written, quoted names '
     'unchanged and others with single spaces, in order, from font-family '
     'or the font shorthand.',
     ['inputs'], 'all combinations of font properties and family lists',
     'Keywords of seven properties, tags, levels of inheritance and spelling '
     'multiply; existing tests name none of them.',
     ['svgpy/opentype.py', 'svgpy/core.py', 'svgpy/dom.py', 'svgpy/text.py'],
     [('features_from_style', 'svgpy/opentype.py'),
      ('CSSUtils.parse_font_feature_settings', 'svgpy/core.py'),
      ('CSSUtils.parse_font_variant', 'svgpy/core.py'),
      ('CSSUtils.parse_font_family', 'svgpy/core.py'),
      ('Element.get_inherited_style', 'svgpy/dom.py')],
     level='exploration')

prop('X01', 'Glyphs stand, turn and advance as the text attributes say',
     'Each character of a text (horizontal writing) stands at the value x '
     'and y give it, the nearest element that has a value deciding, or else '
     'where the one before it ended, moved by dx, dy and the offsets of its '
     'glyph, turned by its rotate value; its outline is that of its glyph '
     'there, y downward. Right-to-left runs advance to the left and a run '
     'against the direction of the text takes just the room it needs. The '
     'advances, lengths of parts and the bounding box are those of the '
     'glyphs, and glyphs are emboldened or slanted exactly where the face '
     'lacks the style and font-synthesis allows it.',
     ['inputs'], 'all attribute values, advances, offsets and outlines',
     'Positions combine lists on several elements with turned glyphs; tests '
     'compare a few pictures.',
     ['svgpy/text.py', 'svgpy/path.py', 'svgpy/freetype.py'],
     [('SVGTextContentElement._get_text_path_data', 'svgpy/text.py'),
      ('PathParser.from_glyph', 'svgpy/path.py'),
      ('FTMatrix', 'svgpy/freetype.py'),
      ('SVGTextContentElement.get_sub_string_length', 'svgpy/text.py')],
     level='exploration')

prop('K01', 'Computed style follows the CSS cascade and inheritance',
     'For every document, the computed value of a property of an element is '
     'the one the cascade selects: important declarations beat normal ones, '
     'the style attribute beats style rules, a more specific or equally '
     'specific later rule beats the others, style rules beat presentation '
     'attributes, and the built-in sheet loses to all of them unless it is '
     'important; selectors (type, class, id, attribute, structural '
     'pseudo-classes, combinators, namespaces) match exactly the elements '
     'they describe. Without a declaration, or with inherit or unset, '
     'inherited properties take the value of the parent and others their '
     'initial value; initial is the initial value. The font shorthand sets '
     'its longhands on whichever level it is given. Every element of the '
     'document has a computed style.',
     ['inputs'], 'all documents, style sheets, selectors and properties',
     'The cascade is a ranking over combinations of rules; tests hold '
     'single rules with class selectors.',
     ['svgpy/style.py', 'svgpy/dom.py', 'svgpy/css/__init__.py'],
     [('get_css_style', 'svgpy/style.py'),
      ('Element.get_inherited_style', 'svgpy/dom.py'),
      ('CSSStyleDeclaration._parse_content', 'svgpy/css/__init__.py')],
     level='exploration')

prop('K02', 'Font size, weight, line height and lengths are computed in place',
     'The computed font size of an element is its specified one with em, ex, '
     'ch, cap, ic, percentages, larger and smaller taken from the font of '
     'its parent, rem from that of the root (the default size for the root '
     'itself) and viewport units from the viewport around it, and is never '
     'below the minimum; bolder and lighter step from the weight of the '
     'parent; a number as line height multiplies the font size of whoever '
     'uses it while lengths and percentages are fixed where they are given. '
     'Children inherit computed values: a relative size or length is '
     'resolved once, at the element that specifies it. All other em, ex, ch, '
     'cap and ic lengths refer to the font of the element itself, and every '
     'length of every element can be computed.',
     ['inputs'], 'all numbers, units, font sizes and viewports; documents of '
     'any nesting', 'Tests cover one level of nesting with few literals.',
     ['svgpy/core.py', 'svgpy/dom.py'],
     [('CSSUtils.compute_font_size, compute_font_weight, '
       'compute_line_height', 'svgpy/core.py'),
      ('Element.get_computed_style', 'svgpy/dom.py')])

prop('D01', 'Token lists behave as ordered sets backed by an attribute',
     'After any sequence of add, remove, toggle, replace and value '
     'assignment, a token list contains each token once in order of '
     'insertion, membership, length and iteration agree, and the attribute '
     'text is the tokens joined by single spaces; invalid tokens are '
     'rejected leaving the list unchanged.',
     ['histories'], 'all operation sequences and token arguments',
     'History property over arbitrary operations.',
     ['svgpy/dom.py'],
     [('DOMTokenList', 'svgpy/dom.py')], level='exploration')

prop('D02', 'Queries find exactly the matching elements',
     'In any document, the queries by id, class names, qualified name, and '
     'namespace and local name return exactly the elements whose attributes '
     'and names match, in document order (namespace None or "*" stands for '
     'any; queries of the document and of an svg element include the element '
     'itself, queries of other elements do not), and '
     'query_selector_all and query_selector return exactly the descendants, '
     'all or the first, that match a type, class, id, attribute or '
     'structural selector with combinators, also in namespaced documents '
     'and for class names with special characters; arguments are left '
     'unmodified.',
     ['inputs', 'configurations'], 'all documents, names and selectors',
     'Tests query a few fixed documents without unusual names.',
     ['svgpy/utils.py', 'svgpy/dom.py', 'svgpy/window.py', 'svgpy/style.py'],
     [('get_elements_by_*', 'svgpy/utils.py'),
      ('Element.query_selector*', 'svgpy/dom.py'),
      ('Document.query_selector*', 'svgpy/window.py')], level='exploration')

prop('D03', 'The node tree stays a tree and navigation agrees with it',
     'After any sequence of append, insert, replace, remove, prepend, '
     'addnext and addprevious calls, every node has at most one parent, parent, child, '
     'sibling, first and last links agree with the child order, moving a '
     'node removes it from its old place, and calls that would create a '
     'cycle or name a foreign reference child fail leaving the tree as it '
     'was.',
     ['histories'], 'all operation sequences on trees of any shape',
     'History property over arbitrary operations.',
     ['svgpy/dom.py', 'svgpy/window.py'],
     [('Element, Comment, ProcessingInstruction', 'svgpy/dom.py'),
      ('Document', 'svgpy/window.py')],
     level='exploration')

prop('D04', 'Attributes and dataset views reflect one attribute store',
     'Whichever view (attribute methods, attribute map, dataset, id, class) '
     'writes an attribute, all views read the same value; removing through '
     'any view removes it from all; dataset names map to data- attributes '
     'by the camel-case rule both ways.',
     ['inputs', 'histories'], 'all names, values and edit sequences',
     'Several views over one store, any interleaving.',
     ['svgpy/dom.py'],
     [('Attrib, NamedNodeMap, DOMStringMap, Element', 'svgpy/dom.py')],
     level='exploration')

prop('U01', 'URL components round-trip and setters stay consistent',
     'Parsing an absolute URL and writing it back is stable (parsing its '
     'own output gives the same components), origin, host, hostname and port '
     'agree with each other and href, relative references resolve against '
     'the base as RFC 3986 says without modifying the base, and each setter '
     'changes only the component it names.',
     ['inputs', 'histories'], 'all URLs, bases and setter sequences',
     'Component interplay is unbounded; tests list literals.',
     ['svgpy/url.py'], [('URL', 'svgpy/url.py')],
     level='exploration')

prop('U02', 'A URL and its search parameters always show the same query',
     'Search parameters are a mapping of names to values: after any sequence '
     'of item assignments, deletions, updates and search or href '
     'assignments, the mapping, URL.search, href and tostring() show the '
     'same names and values (of a repeated name the last value), percent-'
     'encoded so that parsing the text again gives the same mapping, '
     'whatever characters they contain.',
     ['inputs', 'histories'], 'all names, values and operation sequences',
     'History property; encoding of arbitrary characters.',
     ['svgpy/url.py'], [('URLSearchParams', 'svgpy/url.py'),
                        ('URL.search', 'svgpy/url.py')],
     level='exploration')
