"""Frozen oracle tables: facts about the KiCad file format and about the meaning of
attributes which the source cannot tell.  Every entry carries its reason."""
from .values import *

SELF = ('param', 'self')


def A(*names):
    v = SELF
    for n in names:
        v = ('attr', v, n)
    return v


# Keyword attributes: the words the KiCad format (and the docstring of the attribute) allows.
# A value outside the vocabulary is not an admissible value of the attribute.
DOMAINS = {
    ('Attributes', 'type'): ('smd', 'through_hole'),
    ('Via', 'type'): ('blind', 'micro'),
    ('Pad', 'shape'): ('circle', 'rect', 'oval', 'trapezoid', 'roundrect', 'custom'),
    ('Pad', 'type'): ('thru_hole', 'smd', 'connect', 'np_thru_hole'),
    ('FpText', 'type'): ('reference', 'value', 'user'),
    ('LibTable', 'type'): ('sym_lib_table', 'fp_lib_table'),
    ('Connection', 'type'): ('wire', 'bus'),
    ('Justify', 'horizontally'): ('left', 'right', 'center'),
    ('Justify', 'vertically'): ('top', 'bottom'),
    ('PageSettings', 'paperSize'): ('A0', 'A1', 'A2', 'A3', 'A4', 'A5', 'A', 'B', 'C', 'D', 'E',
                                    'USLetter', 'USLegal', 'USLedger', 'GERBER', 'User'),
    # a sheet's own name / file name are stored as properties with reserved keys (v6 and v7 spelling)
    ('HierarchicalSheet', 'sheetName.key'): ('Sheet name', 'Sheetname'),
    ('HierarchicalSheet', 'fileName.key'): ('Sheet file', 'Sheetfile'),
}

# Words an attribute cannot hold because the format reserves them.
RESERVED = {
    ('HierarchicalSheet', 'properties[].key'): ('Sheet name', 'Sheetname', 'Sheet file', 'Sheetfile'),
}

# Element classes of collections whose annotation in the source names another class.
ELEMENT_CLASS = {
    ('RenderCache', 'polygons'): 'RenderCachePolygon',      # annotated List[Position]
}

_FP_GRAPHIC = ('FpLine', 'FpRect', 'FpCircle', 'FpArc', 'FpPoly', 'FpCurve')


def invariants(cls, model):
    """Facts about every admissible item of the class (documented dependencies between attributes)."""
    n = cls.name
    if n in _FP_GRAPHIC:
        # "width: prior to version 7", "stroke: version 7": never both
        return (mk_or([('isnone', A('width')), ('isnone', A('stroke'))]),)
    if n == 'PageSettings':
        # width/height are given for, and only for, the User page size
        u = mk_eq(A('paperSize'), const('User'))
        return (mk_or([mk_not(u), mk_not(('isnone', A('width')))]),
                mk_or([mk_not(u), mk_not(('isnone', A('height')))]),
                mk_or([u, ('isnone', A('width'))]), mk_or([u, ('isnone', A('height'))]))
    if n == 'Symbol':
        # pinNamesHide / pinNamesOffset are options of the pin_names token
        return (mk_or([('truthy', A('pinNames')), mk_not(('truthy', A('pinNamesHide')))]),
                mk_or([('truthy', A('pinNames')), ('isnone', A('pinNamesOffset'))]))
    if n == 'GrText':
        # knockout is an option of the layer token
        return (mk_or([mk_not(('truthy', A('knockout'))), mk_not(('isnone', A('layer')))]),)
    if n in ('GrTextBox', 'FpTextBox'):
        # "the four corners of a non-cardinally oriented text box"
        return (mk_or([mk_not(('truthy', A('pts'))), mk_eq(('call', 'len', (A('pts'),), ()), const(4))]),)
    if n == 'DrillDefinition':
        # only oval holes have a second dimension
        return (mk_or([('truthy', A('oval')), ('isnone', A('width'))]),)
    return ()


# Outlines without any point have no representation in the format: the writer leaves the item out.
_POINTLESS = ('FpPoly', 'FpCurve', 'GrPoly', 'GrCurve', 'ZonePolygon', 'FilledPolygon', 'FillSegments')


def pointless(cls):
    return any(k.name in _POINTLESS for k in cls.mro())


def omitted(cls, facts, cmpr):
    return pointless(cls) and mk_not(('truthy', A('coordinates'))) in facts


def element_omitted(cmpr, elem, facts):
    ks = cmpr.m.classes_of(elem, cmpr.w) or []
    ks = [k for k in ks if cmpr.L.assume(facts, ('istype', elem, (k.name,))) is not None]
    return bool(ks) and all(pointless(k) for k in ks) and mk_not(('truthy', ('attr', elem, 'coordinates'))) in facts


def object_omitted(cmpr, e, facts):
    ks = cmpr.m.classes_of(e, cmpr.w) or []
    return bool(ks) and all(pointless(k) for k in ks) and mk_not(('truthy', ('attr', e, 'coordinates'))) in facts


def virtual_parts(cls, model, fields):
    if 'libId' in fields:
        return {'libraryNickname', 'entryName', 'unitId', 'styleId'}
    return set()


# Positions are used for points, sizes and placements alike; these are the ones for which the format
# carries an angle / an unlocked flag.
POSITION_ANGLE = {(c, 'position.angle') for c in (
    'Footprint', 'FpText', 'GlobalLabel', 'GrText', 'HierarchicalLabel', 'HierarchicalPin', 'LocalLabel',
    'NetclassFlag', 'Pad', 'Property', 'SchematicSymbol', 'SyText', 'SyTextBox', 'SymbolPin', 'Text', 'TextBox')}
POSITION_ANGLE |= {('SyArc', 'start.angle'), ('SyArc', 'mid.angle'), ('SyArc', 'end.angle')}
POSITION_UNLOCKED = {('FpText', 'position.unlocked')}


def not_persisted(wcls, path, cls, field):
    if field == 'filePath':            # where the object was loaded from
        return True
    if cls.name == 'ColorRGBA' and field == 'precision':     # number of digits used when writing
        return True
    if cls.name == 'Position':
        if field == 'angle':
            return (wcls.name, path) not in POSITION_ANGLE
        if field == 'unlocked':
            return (wcls.name, path) not in POSITION_UNLOCKED
    return False


# Numbers the KiCad format writes with a fixed number of decimals.
ROUNDED = {('ColorRGBA', 'A'), ('PlotSettings', 'dashedLineDashRatio'), ('PlotSettings', 'dashedLineGapRatio'),
           ('PlotSettings', 'hpglPenDiameter')}


def rounded(cmpr, e):
    return e[0] == 'attr' and any((c.name, e[2]) in ROUNDED for c in cmpr.L.owner(e[1]))


def enough_digits(fmt):
    """The fixed formats of these fields: six decimals, or the number of digits the item itself asks for."""
    import re
    m = re.fullmatch(r'\.(\d+)f', str(fmt))
    return int(m.group(1)) >= 6 if m else 'precision' in str(fmt)


def none_is_empty(wcls, path):
    return False

# Items whose text is not one parenthesised expression by design.
ROOTLESS = {
    'DesignRules',        # a .kicad_dru file is a sequence of expressions
    'StackupSubLayer',    # written inline after "addsublayer" inside its layer
}

# Numbers KiCad itself puts directly before a line break; their reader converts them.
NUMBER_BEFORE_NEWLINE = {('RenderCache', 'id')}

# Text attributes written without quotes: keywords of the format, identifiers (uuid, time stamp), version numbers,
# program names, bit masks and encoded data.  None of them may hold blanks, quotes or parentheses.
UNQUOTED = {
    # file headers
    ('Board', 'version'), ('Board', 'generator'), ('Footprint', 'version'), ('Footprint', 'generator'),
    ('Schematic', 'version'), ('Schematic', 'generator'), ('SymbolLib', 'version'), ('SymbolLib', 'generator'),
    ('WorkSheet', 'version'), ('WorkSheet', 'generator'), ('DesignRules', 'version'),
    # identifiers
    ('Footprint', 'tedit'), ('Group', 'id'), ('Group', 'members'), ('SchematicSymbol', 'pins'),
    # encoded data
    ('Image', 'data'), ('PlotSettings', 'layerSelection'), ('PlotSettings', 'plotOnAllLayersSelection'),
    # wildcard layer sets (*.Cu, F&B.Cu) are written bare by KiCad
    ('Pad', 'layers'),
    # keywords
    ('Constraint', 'type'), ('Constraint', 'elements'), ('Rule', 'severity'), ('Attributes', 'type'),
    ('PadOptions', 'clearance'), ('PadOptions', 'anchor'), ('Pad', 'type'), ('Pad', 'shape'), ('Pad', 'property'),
    ('Pad', 'chamfer'), ('LibTable', 'type'), ('SymbolAlternativePin', 'electricalType'),
    ('SymbolAlternativePin', 'graphicalStyle'), ('SymbolPin', 'electricalType'), ('SymbolPin', 'graphicalStyle'),
    ('WksPosition', 'corner'), ('Line', 'option'), ('Rect', 'option'), ('Bitmap', 'option'), ('TbText', 'option'),
    ('LayerToken', 'type'), ('Stackup', 'dielectricContraints'), ('Stackup', 'edgeConnector'), ('Via', 'type'),
    ('Target', 'type'), ('Stroke', 'type'), ('Justify', 'horizontally'), ('Justify', 'vertically'), ('Fill', 'type'),
    ('Dimension', 'type'), ('FpText', 'type'), ('FpRect', 'fill'), ('FpCircle', 'fill'), ('FpPoly', 'fill'),
    ('GrRect', 'fill'), ('GrCircle', 'fill'), ('GrPoly', 'fill'), ('Connection', 'type'), ('GlobalLabel', 'shape'),
    ('HierarchicalLabel', 'shape'), ('NetclassFlag', 'shape'), ('SchematicSymbol', 'mirror'),
    ('HierarchicalPin', 'connectionType'), ('KeepoutSettings', 'tracks'), ('KeepoutSettings', 'vias'),
    ('KeepoutSettings', 'pads'), ('KeepoutSettings', 'copperpour'), ('KeepoutSettings', 'footprints'),
    ('FillSettings', 'mode'), ('FillSettings', 'smoothingStyle'), ('Hatch', 'style'), ('Zone', 'connectPads'),
    ('Zone', 'filledAreasThickness'),
}
for _c in ('Pad', 'Footprint', 'Segment', 'Via', 'Arc', 'Target', 'Dimension', 'FpText', 'FpLine', 'FpRect', 'FpTextBox', 'FpCircle',
           'FpArc', 'FpPoly', 'FpCurve', 'GrText', 'GrTextBox', 'GrLine', 'GrRect', 'GrCircle', 'GrArc', 'GrPoly', 'GrCurve', 'Zone'):
    UNQUOTED.add((_c, 'tstamp'))
for _c in ('Schematic', 'Image', 'Junction', 'NoConnect', 'BusEntry', 'Connection', 'PolyLine', 'Text', 'TextBox', 'LocalLabel',
           'GlobalLabel', 'HierarchicalLabel', 'SchematicSymbol', 'HierarchicalPin', 'HierarchicalSheet', 'Rectangle', 'Arc', 'Circle',
           'NetclassFlag', 'SyTextBox'):
    UNQUOTED.add((_c, 'uuid'))

# Text written in quotes without escaping: hexadecimal image data.
UNESCAPED = {('Bitmap', 'pngdata')}

# ---------------------------------------------------------------- readers
# Items that are read from several tokens (points, sizes, placements; a layer starts with its number): no leading token of their own.
ANY_HEAD = {'Position', 'WksPosition', 'LayerToken', 'DesignRules'}
# Leading tokens of older file format versions.
LEGACY_HEADS = {'Footprint': ('module',)}
# Tokens with a fixed number of values by format definition: nothing can be added to them.
FIXED_FORM = {'WksFontSize', 'TextSize', 'LayerToken', 'Coordinate', 'ColorRGBA', 'BusAlias', 'DesignRules'}
# Items that consist of bare words or values in sequence, so that every further word is data.
WORD_LIST = {'Constraint', 'DrillDefinition'}
# The sub layers of a stackup layer follow each other, separated by a word: order carries meaning.
ORDERED = {'StackupLayer'}
# Items whose inner lists hold different kinds of tokens (the others are lists of one kind of element).
OPEN_INNER = {'Model', 'Pad', 'Symbol', 'Bitmap'}
# Children the format demands.
MANDATORY = {'Model': ('*',), 'Stroke': ('*',), 'BusAlias': ('*',), 'FpTextBox': ('layer',), 'GrTextBox': ('layer',), 'SyTextBox': ('at',),
             'StackupLayer': ('*',)}
# Children that may come without any value and then mean nothing.
BARE_FORM = {'Symbol': ('pin_numbers',)}
# Children of older or newer format versions that a reader understands (or reports as not supported) although its writer never produces them.
OLDER_TOKENS = {'Pad': ('dimension',), 'Footprint': ('dimension',), 'WorkSheet': ('polygon',), 'StackupLayer': ('addsublayer',)}
# Recognised but not supported: loading them reports so.
UNSUPPORTED = {'Polygon'}


# ---------------------------------------------------------------- defaults
# Optional attributes that start with a value: the line width of graphics (format versions before and after 7 differ).
SET_BY_DEFAULT = {(c, 'width') for c in _FP_GRAPHIC + tuple('Gr' + c[2:] for c in _FP_GRAPHIC)}
# Items without a text, or without an expression, of their own.
NO_READER = {'Polygon', 'StackupSubLayer', 'ProjectInstance'}
NO_WRITER = {'Polygon', 'ProjectInstance', 'Position', 'WksPosition'}


# ---------------------------------------------------------------- writers
def unsavable(cls):
    """States of an item for which saving is documented to raise ("Raises:" sections of to_sexpr)."""
    n = cls.name
    if n == 'PageSettings':
        return (mk_and([mk_eq(A('paperSize'), const('User')), mk_or([('isnone', A('width')), ('isnone', A('height'))])]),)
    if n in ('GrTextBox', 'FpTextBox'):
        card = mk_or([('isnone', A('angle'))] + [mk_eq(A('angle'), const(x)) for x in (0.0, 90.0, 180.0, 270.0)])
        return (mk_and([card, mk_or([('isnone', A('start')), ('isnone', A('end'))])]),
                mk_and([mk_not(card), mk_not(mk_eq(('call', 'len', (A('pts'),), ()), const(4)))]))
    if n == 'Zone':
        return (mk_not(('truthy', A('layers'))),)
    if n == 'Dimension':
        return (mk_not(('truthy', A('pts'))),)
    return ()
