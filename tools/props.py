import json
P=[]
def p(id,title,statement,over,q,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
D='src/colosseum/declaration.py';E='src/colosseum/engine.py';B='src/colosseum/dimensions.py';U='src/colosseum/units.py';C='src/colosseum/colors.py';W='src/colosseum/wrappers.py';R='src/colosseum/parser.py';V='src/colosseum/validators.py';K='src/colosseum/constants.py';S='src/colosseum/shapes.py'
p('C01','Every longhand accepts exactly its value set, and rejection has no effect',
 "Assigning a value to any longhand CSS property either stores the canonical form of that value (keywords as given, 'none' as None, numbers and numeric strings as pixel lengths or integers, text as the length, colour or structured value it denotes), or raises ValueError. Which of the two happens depends only on the property's documented value set (its keywords plus length, percentage, integer, colour or structured syntax) and the value, never on what was declared before. A rejected assignment leaves every property, the listing, the rendering and the dirty state exactly as they were.",
 ['inputs','histories'],'every longhand property x every value of a shared alphabet (all keywords of all properties, all unit suffixes, numbers, colours, structured values, malformed text, wrong types) x every prior state of that property (unset, set, set and deleted, bound to a clean node)',
 'The tests try a handful of values on a few properties; a value leaking into the wrong property, or a half-applied rejection, needs the whole property x value x state product.',
 [D,K,V,R],[('validated_property setter',D),('Choices.validate and the *_CHOICES tables',K),('is_length, is_percentage, is_integer, is_color, ...',V)],['CSS attribute get/set','CSS.keys()','CSS.items()','str(CSS)','CSS.dirty'],
 [('declared values','value of each property that was explicitly set','CSS instance attributes')])
p('C02','A declaration behaves as one map from property to value on every access route',
 "A style declaration behaves as a single map from CSS property names to canonical values: attribute access, item access with hyphenated or underscored names, update(), and the constructor all read and write the same entry (several names given at once as if assigned one by one in that order), setting or deleting one longhand never changes the value of another, and deleting returns a property to its initial value. The initial value of border colours is the current foreground colour and that of text alignment follows the current text direction, until they are set explicitly; an explicit value stays until it is set again or deleted. keys(), items() and the rendered text list exactly the longhands set to something other than their initial value (those explicitly set to their initial value may or may not be listed), and unknown names are refused (KeyError for items, NameError for update).",
 ['histories'],'every sequence of set/delete/update operations up to the depth bound over all access routes and over property groups that interact; every ordered pair of longhand properties',
 'Histories: tests perform one or two assignments through one route each; cross-talk between properties or routes needs all pairs and all short histories.',
 [D,K],[('validated_property getter/setter/deleter',D),('CSS.update, __getitem__, __setitem__, __delitem__, keys, items',D),('OtherProperty, TextAlignInitialValue',K)],['CSS attributes','CSS[...]','CSS.update','CSS.keys()','CSS.items()','str(CSS)'],
 [('declared values','explicitly set properties','CSS instance attributes'),('set of property names','names that the dict-like interface knows','declaration module')])
p('C03','Shorthands expand to exactly their longhands, atomically',
 "Assigning a margin, padding, border-width, border-color or border-style shorthand a single value or a tuple of one to four values sets the top, right, bottom and left longhands following the CSS 1-to-4 value rule and reads back as the (top, right, bottom, left) tuple; assigning border, a border side or outline any permutation of one to three distinct width, style and colour parts, as text separated by white space or as a sequence, sets those longhands and resets the omitted ones to their initial values; reading a border side or outline reports exactly the longhands it currently declares, and its text assigned to the same shorthand of another declaration declares the same longhands; deleting a shorthand resets all its longhands. No other property changes. A value with an invalid, duplicated or surplus part raises ValueError and changes nothing.",
 ['inputs','histories'],'every shorthand x every tuple length and every permutation/combination of part values, valid and invalid in each position x prior declarations of its longhands',
 'The tests sample permutations of one value per part on an empty declaration; partial application and mis-wired sides show only for specific positions and prior states.',
 [D,R,W],[('directional_property',D),('validated_shorthand_property',D),('border, border_*, outline parsers',R),('Shorthand wrappers',W)],['CSS shorthand and longhand attributes','CSS.keys()'],
 [('longhand values','the values a shorthand proxies for','CSS instance attributes')])
p('C04','Copying a declaration preserves every value and shares no state',
 "A copy of a style declaration declares exactly the same properties with the same values as the original, whatever history produced the original and whichever properties and value kinds it holds. The copy belongs to the node given to copy() (or to none), and the original stays bound to its own. Afterwards original and copy are independent: changing, deleting or updating either one never alters the values of the other nor dirties the other's node.",
 ['inputs','histories'],'every longhand x every accepted value of the alphabet, every pair of longhands, and every short mutation history before and after copying, on either object',
 'The tests copy one small declaration; loss of particular property kinds or aliasing shows only on the values and histories they skip.',
 [D,R,W],[('CSS.copy',D),('parsers accepting already parsed values',R)],['CSS.copy()','CSS attributes','CSS.keys()','node.layout.dirty'],
 [('node binding','the node whose layout is dirtied by a change','CSS instance')])
p('C05','Changes dirty exactly the changed node and its descendants',
 "After the tree has been marked clean through its root, changing a style property of a node to a different value, deleting a set property, or changing an intrinsic size attribute of a node marks the layout of that node and of all its descendants dirty, and of no other node. Assigning an equal keyword, number or length again, deleting an unset longhand, reading any value, or a rejected assignment leaves every node clean. Setting the dirty state of a root box gives that state to every box of its tree.",
 ['histories'],'every node of every small tree shape x every change (all longhands, all access routes, all intrinsic attributes) and every history of changes, no-op changes, rejected changes and cleanings up to the depth bound',
 'Tests toggle a few properties on a lone node or a fixed two-level tree; a property that forgets to dirty, or a broken propagation, needs all properties, nodes and orders.',
 [D,B],[('validated_property setter/deleter, CSS.dirty',D),('Size setters, Size.dirty, Box.dirty',B)],['node.layout.dirty','CSS.dirty'],
 [('dirty','True: layout known invalid; False: known good','Box')])
p('C06','The rendered declaration re-parses to the same declaration',
 "str() of a style declaration is the semicolon separated list, sorted by property name, of 'property-name: value' for exactly the listed longhands. Feeding each rendered name and value back as text reconstructs a declaration with the same values, for every longhand and every value it accepts (fonts units, colours in rgb and hsl with integer percentages, none, clip rectangles, quotes, cursors and border spacing included). Rendering does not depend on the order in which properties were set and does not change the declaration.",
 ['inputs','histories'],'every longhand x every accepted value of the alphabet, every pair of longhands in both orders, every combination of values of any two longhands among values of all others; urls and quotation marks with blanks, commas and quote characters',
 'The tests compare one rendered string; values whose textual form does not parse back appear only for the types they skip.',
 [D,U,C,W,S,R],[('CSS.__str__',D),('__str__/__repr__ of units, colours, wrappers and shapes',U),('parsers',R)],['str(CSS)','CSS[...]'],[])
p('C07','Units resolve to pixels correctly to within half a layout unit',
 "Resolving a length to layout units (1/64 px) gives the exact value of that length in its context - pixels; points, picas, inches, centimetres and millimetres at the display's resolution; ems, exes and chs from the font at that resolution; hundredths of the viewport's width, height, smaller or larger side; hundredths of the reference size - rounded to a nearest layout unit, and px() gives that as pixels, as an int exactly when it is whole. Multiplying a unit by a number and negating it scale its value and keep its unit without altering the operand; units are equal exactly when kind and value are equal; angles convert to degrees by 1, 0.9, 180/pi and 360 for deg, grad, rad and turn.",
 ['inputs','configurations'],'every unit x an exhaustive grid of magnitudes (including fractions, zero and negatives) x display sizes (landscape, portrait, square) x resolutions x reference sizes x font sizes; every short chain of scalings and negations',
 'Tests check one magnitude per unit on one display; rounding, integrality and context mix-ups need the grid.',
 [U],[('Unit.lu, Unit.px and subclasses',U),('AngleUnit.deg',U),('BaseUnit.__rmul__, __neg__',U)],['unit.lu()','unit.px()','unit.deg()','str(unit)'],[])
p('C08','Length text parses to exactly the number and unit it spells',
 "A string is accepted as a length exactly when it is a finite decimal number followed by nothing (pixels) or by one of the suffixes px, em, ex, ch, pt, pc, in, cm, mm, vh, vw, vmin, vmax or %, and the result has that number and that unit; an int or a finite float means that many pixels and an existing length is returned as is. Everything else - angle units, infinities, NaN, unknown suffixes, empty text, other types - raises ValueError. The outcome depends only on the text, never on which lengths were created or parsed before.",
 ['inputs','histories'],'all strings up to the length bound over an alphabet of digits, sign, point, exponent and the letters of the suffixes; all number-token x suffix-token combinations; interleaved with all short histories of unit creation',
 'Suffix ambiguities (in/vmin, m/mm, em/rem...), non-finite numbers and registry growth live in strings no test spells.',
 [R,U],[('parser.units',R),('unit registry',U)],['parser.units()','CSS length properties'],
 [('unit registry','known suffixes','units module')])
p('C09','Colour text parses to exactly the colour it denotes, and nothing else parses',
 "'#RGB', '#RGBA', '#RRGGBB' and '#RRGGBBAA' with hexadecimal digits in either case, 'rgb(r,g,b)', 'rgba(r,g,b,a)', 'hsl(h,s%,l%)' and 'hsla(h,s%,l%,a)' with integers (and a decimal alpha) and optional blanks around the numbers, and the 147 SVG colour names plus rebeccapurple in any letter case parse to exactly the components they denote, with alpha 1 when none is given; existing colour objects are returned as they are. Any other text or type - wrong length, non-hexadecimal digit, wrong function name, missing parenthesis, wrong number of components, non-numeric component, unknown name, empty text - raises ValueError.",
 ['inputs'],'all 3-digit and 4-digit hexadecimal colours, all two-digit values of each channel, all integer component values singly and on a grid jointly, all names, all strings up to the length bound over a hostile alphabet behind each prefix, all single-character edits of valid notations',
 'A test per notation leaves single wrong table entries, channel swaps and malformed look-alikes undetected.',
 [R,C],[('parser.color, pound_sign_color',R),('NAMED_COLOR',C)],['parser.color()','CSS.color'],[])
p('C10','HSL colours convert to the RGB colour CSS defines',
 "The rgb view of an hsl colour has, for every hue (any integer or fractional angle, also outside 0-360), saturation and lightness, exactly the red, green and blue that CSS defines, each rounded to a nearest integer between 0 and 255, with the same alpha; the rgb view of an rgb colour is that colour. Converting changes neither colour.",
 ['inputs'],'all integer hues over several turns x all integer percentages of saturation and lightness (grid step 1 in the thorough tier), fractional hues around every sector boundary',
 'The existing tests sample a dozen colours; each of six hue sectors has its own formula.',
 [C],[('hsl.rgb, rgb.rgb',C)],['colors.hsl(...).rgb'],[])
p('C11','Structured values: clip, quotes, cursor, url and border-spacing',
 "clip accepts exactly rect() with four lengths separated by commas or by blanks and reports them as top, right, bottom and left; quotes accepts exactly a non-empty even list of non-empty strings, as text of quoted strings (blanks inside included), as a flat sequence or as pairs, and reports them level by level; cursor accepts exactly zero or more urls optionally followed by one cursor keyword, as text separated by commas (those inside a url apart) or sequence, in the given order; url() yields the address without its quotes and surrounding blanks; border-spacing accepts one or two lengths, and one length serves both directions. Every other value raises ValueError, and already parsed values are accepted unchanged.",
 ['inputs'],'every combination of components from small alphabets (valid, invalid, wrong type) up to one more than the maximal arity, in every notation and separator style',
 'Tests pick a few well-formed and malformed strings; component order, arity and mixed-separator errors need the combinations.',
 [R,W,S],[('rect, quotes, uri, cursor, border_spacing parsers',R),('Rect',S),('Quotes, Cursor, Uri, BorderSpacing',W)],['parser.*','CSS.clip, quotes, cursor, border_spacing'],[])
p('C12','Value objects are immutable and compare by value',
 "No operation of the list interface on a cursor or other immutable list value (item or slice assignment and deletion, every mutating method, in-place operators) changes it: each raises TypeError and the content stays. Immutable lists of the same kind with equal items are equal and hash equally, a copy equals its original, and out-of-range access raises IndexError; quotes, rectangles, shorthand values and lengths are equal exactly when they are of the same kind and hold equal components. A shorthand value accepts only its own keys and reports exactly those given.",
 ['inputs','histories'],'every mutator of the list type x every list of up to three items x argument choices, every sequence of such attempts up to the bound; every pair of values from a pool of all kinds',
 'Tests call the mutators the author thought of; completeness over the list interface and pairwise equality need enumeration.',
 [W,S,U],[('ImmutableList',W),('__eq__/__hash__ of wrappers, Rect and units',W)],['wrappers.*','shapes.Rect','units'],[])
p('C13','Box geometry is always consistent',
 "At every moment, for every box of a tree and whatever sequence of layouts and of position, size, padding, border and reset operations on any of its boxes led there, each derived edge equals its definition: padding and border boxes extend the content box by the padding and border of that side, widths and heights are the distance of opposite edges, and every absolute edge is the box's relative edge plus the absolute content position of the parent box (the origin for the root). In particular moving a box moves all of its descendants by the same amount and nothing else, and resetting a box zeroes it and its descendants.",
 ['histories'],'every sequence of setter and reset operations up to the depth bound on every box of every tree shape with up to four boxes; every box after every layout explored by the other layout properties',
 'Absolute positions are cached per box and propagated incrementally; tests move boxes once or twice in one tree.',
 [B],[('Box derived properties, origin propagation in the content_top/content_left setters, reset',B)],['all public Box attributes'],
 [('origin','cached absolute position of the containing content box','Box')])
p('C14','Block widths and horizontal margins always fill the containing block',
 "For every in-flow, non-replaced block-level box, margin-left + border-left + padding-left + width + padding-right + border-right + margin-right equals the width of its containing block (save for the pixel lost when an odd remainder is halved). An explicit width is used as given, limited by max-width and then min-width; auto width fills the line (equally limited, never negative) with auto margins zero; a single auto margin absorbs the remainder, two auto margins share it equally in whole pixels, and auto margins are zero when the box is too wide; when nothing is auto, the right margin (left margin in right-to-left containing blocks) is recomputed. The content starts right after left margin, border and padding.",
 ['inputs','configurations'],'the full product of width, min-width, max-width, both margins, both paddings, both borders and direction over small value sets (auto, zero, pixels, negative margins, percentages, keywords, viewport units), at several depths of nesting and display sizes',
 'CSS 2.1 10.3.3 has nine interacting inputs; tests visit some dozens of the tens of thousands of combinations.',
 [E],[('calculate_block_non_replaced_normal_flow_width',E)],['node.layout margins, border, padding, content_width, content_left'],[])
p('C15','Block children stack without overlap; heights and margins collapse per CSS',
 "In a container whose children are all in-flow block-level boxes of non-zero height with non-negative margins, the children are stacked in document order: adjacent siblings' border boxes are separated by exactly the larger of the adjoining margins, where a first or last child's margin counts as its container's unless a border or padding (or, at the bottom, an explicit height) separates them, in which case it stays inside the container. An auto height ends exactly at the last child's border edge, plus its bottom margin when that stays inside; explicit heights are used as given, a percentage height being taken of the parent's explicit height; max-height and then min-height limit every height. Auto vertical margins count as zero.",
 ['inputs','configurations'],'all tree shapes up to the node bound x all assignments of at most k deviations (margins, paddings, borders, heights, min/max heights, whole and fractional) to their nodes, k iterated up to the bound',
 'Collapsing interacts across siblings and levels; the tests pin a few fixed trees and most web-platform tests are expected failures.',
 [E,B],[('layout_box block formatting context',E),('calculate_block_non_replaced_normal_flow_height',E),('collapse_top/collapse_bottom',B)],['node.layout content_top, content_height, border_box_*'],[])
p('C16','Layout is a function of the current tree, not of its history',
 "Laying out a tree gives every node exactly the geometry that a freshly built tree with the same structure, styles, intrinsic sizes and display gets, whatever earlier layouts (of other styles, other displays or the other HTML standard), style changes, hiding and showing, intrinsic changes, insertions, removals and moves of children preceded it. In particular laying out twice changes nothing.",
 ['histories'],'every sequence of tree mutations and layouts up to the depth bound, over several start trees; after every layout the geometry of the whole tree is compared with that of a fresh tree',
 'Stale box state survives only along particular mutate-layout histories; the tests lay out each tree once.',
 [E,B],[('layout resets boxes before use',E),('Box.reset, origin propagation',B)],['all public Box attributes of every node'],
 [('box state','geometry, collapsed margins and origins kept between layouts','Box')])
p('C17','Nodes with display none vanish from layout',
 "A node whose display is none has no layout box after layout, wherever it is in the tree (root, first, middle, last, only child, nested) and whatever its other styles are, and every other node gets exactly the geometry it would get if the hidden nodes were removed from the tree. Hiding the root leaves no layout and raises nothing, and styles and intrinsic sizes of hidden nodes can still be changed; showing a node again gives it and its descendants the geometry of a tree in which it was never hidden.",
 ['inputs','histories'],'every subset of nodes hidden in every tree shape up to the node bound x style deviations on hidden and visible nodes; every sequence of hide/show/layout/style operations up to the depth bound',
 'Tests hide one node in one layout; positions of hidden nodes among siblings and hide-show histories are not exercised.',
 [E,B,D],[('layout_box display none branch, restore_boxes',E),('CSS.dirty, Size.dirty without a box',D)],['node.layout','geometry of other nodes'],
 [('layout','the box of a node, None when it has none','node')])
p('C18','Relative positioning is a pure offset',
 "A relatively positioned box and all its descendants appear exactly where they would be with position static, shifted right by left (or, when left is auto, or when both are set in a right-to-left container, left by right) and down by top (or, when top is auto, up by bottom); percentages of left and right refer to the containing block's width. All other boxes - siblings, ancestors, their sizes - are unaffected, and without offsets the layout equals the static one.",
 ['inputs','configurations'],'every node of every tree shape up to the bound made relative x all combinations of top, right, bottom, left over small value sets x edge and height deviations; pairs of relative nodes',
 'Effects on siblings and ancestors need tree context that the existing tests, and the many expected-failure ones, do not verify.',
 [E],[('layout_box section 9.4.3',E)],['geometry of every node'],[])
p('C19','The root box is fitted to the display as the HTML standard in force says',
 "The border edge of a block root lies below the top of the display by the full collapsed extent of the root's top margin and the top margins that collapse with it, and its width fills the display's width by the rules for block boxes. In the HTML5 standard (the default) its content height is the display's height less the collapsed top and bottom margins, whatever its content and height style; in HTML4 it is the height determined by style and content. The choice of standard changes nothing but the height of the root.",
 ['inputs','configurations'],'all style deviations up to the bound on root and first/last descendants x displays x both standards',
 'Tests use one display size and mostly one standard; collapsed extents through nested first and last children are not covered.',
 [E],[('layout',E)],['root layout geometry'],[])
p('C20','Inline boxes are sized from style and intrinsic dimensions',
 "A non-replaced inline box takes exactly its intrinsic width and height whatever its width and height styles are. A replaced inline box takes its explicit width and height if given; for auto it takes the intrinsic dimension when there is one and the other dimension is auto too, else derives the missing dimension from the other one and the intrinsic ratio (width divided by height), else (with nothing but a ratio) fills the line, else the intrinsic dimension, else 300 pixels wide, and as high as half the width, at most 150. Auto margins count as zero, and the content box lies inside the left and top margin, border and padding.",
 ['inputs','configurations'],'the full product of width, height, intrinsic width, height and ratio (each present or absent), margins, borders and paddings over small value sets, as root and as only child',
 'CSS 2.1 10.3.2 and 10.6.2 are case analyses over five optional inputs; the tests pick single cases.',
 [E],[('calculate_inline_replaced_width/height, calculate_inline_non_replaced_width/height',E)],['node.layout geometry'],[])
p('C21','Lengths are resolved in the right context during layout',
 "During layout every length used for a margin, padding, border, width, height, min/max size or offset counts as its pixel value: absolute units at the display's resolution, viewport units of the display's size, thin, medium and thick as the display defines them, percentages of horizontal and of vertical margins, paddings, widths and horizontal offsets of the width of the containing block (the display for the root), percentage heights of the parent's explicit height (the display's for the root). Replacing any length by its pixel equivalent therefore changes no geometry anywhere in the tree, and the border style does not matter.",
 ['inputs','configurations'],'every length-valued property x every unit kind x several magnitudes x nodes at depth 0, 1 and 2 x displays of different shape and resolution; compared with the same tree written in pixels',
 'Each of some twenty property/unit/axis combinations is resolved separately in the code; tests use percentages on few of them.',
 [E,U],[('calculate_size, horizontal/vertical contexts in layout_box',E),('Unit.px',U)],['node.layout geometry'],[])
p('C22','Layout changes nothing but boxes, and trees do not influence each other',
 "Laying out a tree leaves every style declaration (values, listing, rendering), every intrinsic size, the parent and child links, the display and all unit and colour objects exactly as they were, also when it fails because something is unsupported. Layouts of different trees, interleaved in any order, sharing style declarations through copies or length values by reference, give the same geometry as each tree laid out alone.",
 ['histories','inputs'],'every style deviation up to the bound on small trees, every interleaving of mutations and layouts of two trees up to the depth bound',
 'Tests inspect boxes only; leaks through shared objects or module state need two trees and interleavings.',
 [E,B,U],[('layout writes to node.layout only',E)],['CSS values','Size attributes','tree links','Box geometry'],[])
p('C23','Unsupported layout is refused, never silently skipped',
 "A layout either gives every displayed node its geometry or raises an exception: floats, absolute and fixed positioning, replaced blocks, inline-block, inline-table, table parts, flex and grid displays are refused with an exception wherever such a node occurs as root, only child or nested child, whatever its other styles, and boxes mixing block and inline children are either laid out or refused. Supported nodes around them are no excuse to skip them, and a tree becomes layable again as soon as the unsupported style is removed.",
 ['inputs','histories'],'every unsupported mode x every position in every tree shape up to the bound x style deviations; every remove-and-relayout continuation',
 'These branches are excluded from the coverage of the test-suite; nothing checks that they are reached from every position.',
 [E],[('NotImplementedError branches',E)],['engine.layout outcome'],[])
p('C24','Validators and sets of choices accept exactly what they describe',
 "is_integer and is_number accept exactly the integers and finite numbers, given as numbers or as their decimal text, that lie within the given inclusive bounds, whichever of the two bounds are given and whatever their sign; is_percentage exactly the percentages that are not negative; is_length, is_color, is_rect, is_quote, is_uri, is_cursor and is_border_spacing exactly what the parser of that value accepts, with its result. Everything else raises ValidationError, which is a ValueError. A set of choices, and a property declared with it, accepts exactly what one of its validators accepts (the first that does gives the value), its constants ('none' standing for None) and its explicit defaulting constants, and raises ValueError for everything else; its text lists each alternative once, in order. No outcome depends on earlier validations.",
 ['inputs','configurations'],'every validator x every value of the shared alphabets; every pair of bounds x every value around them; every small set of constants, validators in order and defaulting constants x a panel of values',
 'Tests try three or four values per validator and one set of choices per kind; boundary handling, falsy bounds and the interplay of validators and constants need the product.',
 [V,K,R,D],[('_numeric_validator, is_integer, is_number, is_percentage, is_*',V),('Choices.validate, Choices.__str__',K),('validated_property',D)],['validators.is_*','Choices.validate()','str(Choices)','validated_property attributes'],[])
p('C25','What has no part in layout never influences geometry',
 "Colours, outlines, border styles, text decoration, cursors, quotes, clipping, visibility, stacking order, clearance without floats, page breaks, orphans, widows and the table properties of boxes that are no tables never change the geometry of any box of a tree, alone or combined, on whichever node, whatever layout styles stand beside them, in either HTML standard; nor do text and spacing properties in trees of block boxes, overflow on the root or where no margins collapse, offsets of static boxes, widths, heights and limits of non-replaced inline boxes, intrinsic sizes of non-replaced blocks, the exactness of intrinsic sizes, the order and route in which a style was declared, or whether a property has its initial value by declaration or by default.",
 ['inputs','configurations'],'every property without a role in layout x every accepted value x every node of a pool of trees, every pair of such properties, each beside every layout style on the same node, its parent, child or sibling, all at once on every subset of nodes',
 'No test sets such a property in a layout at all; an influence needs the right combination of inert property, layout style and position in the tree.',
 [E,D,B],[('layout_box and the width and height rules read layout properties only',E)],['node.layout geometry'],[])
p('C26','Every supported tree lays out, with finite numbers everywhere',
 "Laying out a tree of block and list-item boxes, non-replaced inline boxes with intrinsic sizes, replaced inline boxes and hidden nodes, static or relatively positioned and without mixing block and inline children, never raises, whatever values they accept for margins, paddings, border widths, sizes, limits and offsets (inherit excepted; negative, zero, fractional and percentage values, font and viewport units and huge numbers, as long as their pixel values are finite, included), whatever the size and resolution of the display, in either HTML standard. Afterwards every displayed node has a box, and all its dimensions, margins, borders, paddings and relative and absolute edges are finite numbers: no auto remains.",
 ['inputs','configurations'],'every layout property x every accepted value x every place, every pair of layout properties on one node and on two, the cross product of kinds of sizes, limits and margins, every tree shape to the bound x every assignment of node kinds, every intrinsic size, every display of a panel',
 'The tests lay out some hundred hand-written trees; a missing case among the width and height rules, or an auto that survives, shows for specific combinations only.',
 [E,B,U],[('calculate_width_and_margins, calculate_height_and_margins, calculate_size',E),('Box',B)],['engine.layout outcome','node.layout geometry'],[])
p('C27','Refusals and printed values say exactly what they are about',
 "Refusing a value for a longhand raises a ValueError whose message quotes the value, names the property and lists, after 'Valid values are:', every alternative of that property and nothing else: each keyword ('none' included) and each kind of value it accepts, once each, whatever was declared before and by whichever route; an unknown name is named by the KeyError or NameError that refuses it. The repr of a length, colour, rectangle, url, quotes, cursor, border spacing or shorthand value shows all of its components exactly (a shorthand value as name=value, for just the keys it holds), so values of one kind with different components print differently; the repr of a box shows its content width and height and its absolute content position. Printing never fails, gives the same text each time and changes nothing.",
 ['inputs','histories'],'every longhand x every refused value of the alphabets x prior states x routes; unknown names from the vocabulary of the property names; pools of all combinations of components for every kind of value; every box of trees of every shape, laid out and moved',
 'Tests compare a handful of messages and representations; a list of alternatives that lacks one, or a form that drops a component, shows only for the property or value nobody printed.',
 [D,K,W,U,C,S,B],[('validated_property setter, CSS.update, __getitem__, __setitem__, __delitem__',D),('Choices.__str__',K),('__repr__ of wrappers',W),('__repr__ of units, colours and shapes',U),('Box.__repr__',B)],['str() of the exceptions','repr() of values and boxes'],[])
p('C28','Work grows with the size of the tree or text, never exponentially',
 "Laying out a tree, laying it out again, after any change, in either standard and on any display, and marking, moving, resetting, reading or copying its parts takes a number of steps at most quadratic in the number of its nodes: doubling the depth of a chain or comb, the length of a row or the number of leaves of a full tree multiplies the steps by at most about four, whatever layout styles its boxes have. So does doubling the length of a value's text or list, valid or not; and a declaration that has changed many times is no slower to use than a new one. Chains of 150 levels lay out.",
 ['inputs','histories','configurations'],'every combination of values of any two layout properties on chains, rows, combs and full trees of two sizes; all operations on nine families of trees at doubling sizes; all list-like and long texts at doubling lengths; every longhand after many changes',
 'The tests use trees of at most four levels and check results only; a box that lays its content out twice for some combination of styles doubles the time with every level, unnoticed there.',
 [E,B,D,R],[('layout_box, restore_boxes',E),('Box position and dirty propagation',B),('CSS.copy, __str__, keys',D),('parsers',R)],['number of executed source lines and calls of the library'],[])
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
