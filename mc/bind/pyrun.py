#!/usr/bin/env python3
"""Executes scripts of API calls through python/capypdf.py.  A server: one forked process per script.
Request: a length line and a JSON object; reply: a length line and one line per call."""
import os, sys, json, math, ctypes, traceback, gc, signal

ENUMS = {
    'CapyPDF_Line_Cap': ('LineCapStyle', {
        'CAPY_LC_BUTT': 'Butt',
        'CAPY_LC_ROUND': 'Round',
        'CAPY_LC_PROJECTION': 'Projection_Square',
    }),
    'CapyPDF_Line_Join': ('LineJoinStyle', {
        'CAPY_LJ_MITER': 'Miter',
        'CAPY_LJ_ROUND': 'Round',
        'CAPY_LJ_BEVEL': 'Bevel',
    }),
    'CapyPDF_Line_Annotation_End_Style': ('LineAnnotationEndStyle', {
        'CAPY_LINE_ANNOTATION_END_SQUARE': 'Square',
        'CAPY_LINE_ANNOTATION_END_CIRCLE': 'Circle',
        'CAPY_LINE_ANNOTATION_END_DIAMOND': 'Diamond',
        'CAPY_LINE_ANNOTATION_END_OPEN_ARROW': 'OpenArrow',
        'CAPY_LINE_ANNOTATION_END_CLOSED_ARROW': 'ClosedArrow',
        'CAPY_LINE_ANNOTATION_END_NONE': 'NoEnding',
        'CAPY_LINE_ANNOTATION_END_BUTT': 'Butt',
        'CAPY_LINE_ANNOTATION_END_R_OPEN_ARROW': 'ROpenAreow',
        'CAPY_LINE_ANNOTATION_END_R_CLOSED_ARROW': 'RClosedArrow',
        'CAPY_LINE_ANNOTATION_END_SLASH': 'Slash',
    }),
    'CapyPDF_Blend_Mode': ('BlendMode', {
        'CAPY_BM_NORMAL': 'Normal',
        'CAPY_BM_MULTIPLY': 'Multiply',
        'CAPY_BM_SCREEN': 'Screen',
        'CAPY_BM_OVERLAY': 'Overlay',
        'CAPY_BM_DARKEN': 'Darken',
        'CAPY_BM_LIGHTEN': 'Lighten',
        'CAPY_BM_COLORDODGE': 'Colordodge',
        'CAPY_BM_COLORBURN': 'Colorburn',
        'CAPY_BM_HARDLIGHT': 'Hardlight',
        'CAPY_BM_SOFTLIGHT': 'Softlight',
        'CAPY_BM_DIFFERENCE': 'Difference',
        'CAPY_BM_EXCLUSION': 'Exclusion',
        'CAPY_BM_HUE': 'Hue',
        'CAPY_BM_SATURATION': 'Saturation',
        'CAPY_BM_COLOR': 'Color',
        'CAPY_BM_LUMINOSITY': 'Luminosity',
    }),
    'CapyPDF_Device_Colorspace': ('DeviceColorspace', {
        'CAPY_DEVICE_CS_RGB': 'RGB',
        'CAPY_DEVICE_CS_GRAY': 'Gray',
        'CAPY_DEVICE_CS_CMYK': 'CMYK',
    }),
    'CapyPDF_Image_Colorspace': ('ImageColorspace', {
        'CAPY_IMAGE_CS_RGB': 'RGB',
        'CAPY_IMAGE_CS_GRAY': 'Gray',
        'CAPY_IMAGE_CS_CMYK': 'CMYK',
    }),
    'CapyPDF_Soft_Mask_Subtype': ('SoftMaskSubType', {
        'CAPY_SOFT_MASK_ALPHA': 'Alpha',
        'CAPY_SOFT_MASK_LUMINOSITY': 'Luminosity',
    }),
    'CapyPDF_Transition_Type': ('TransitionType', {
        'CAPY_TR_SPLIT': 'Split',
        'CAPY_TR_BLINDS': 'Blinds',
        'CAPY_TR_BOX': 'Box',
        'CAPY_TR_WIPE': 'Wipe',
        'CAPY_TR_DISSOLVE': 'Dissolve',
        'CAPY_TR_GLITTER': 'Glitter',
        'CAPY_TR_R': 'R',
        'CAPY_TR_FLY': 'Fly',
        'CAPY_TR_PUSH': 'Push',
        'CAPY_TR_COVER': 'Cover',
        'CAPY_TR_UNCOVER': 'Uncover',
        'CAPY_TR_FADE': 'Fade',
    }),
    'CapyPDF_Transition_Dimension': ('TransitionDimension', {
        'CAPY_TR_DIM_H': 'H',
        'CAPY_TR_DIM_V': 'V',
    }),
    'CapyPDF_Transition_Motion': ('TransitionMotion', {
        'CAPY_TR_M_I': 'I',
        'CAPY_TR_M_O': 'O',
    }),
    'CapyPDF_Page_Box': ('PageBox', {
        'CAPY_BOX_MEDIA': 'Media',
        'CAPY_BOX_CROP': 'Crop',
        'CAPY_BOX_BLEED': 'Bleed',
        'CAPY_BOX_TRIM': 'Trim',
        'CAPY_BOX_ART': 'Art',
    }),
    'CapyPDF_Rendering_Intent': ('RenderingIntent', {
        'CAPY_RI_RELATIVE_COLORIMETRIC': 'RelativeColorimetric',
        'CAPY_RI_ABSOLUTE_COLORIMETRIC': 'AbsoluteColorimetric',
        'CAPY_RI_SATURATION': 'Saturation',
        'CAPY_RI_PERCEPTUAL': 'Perceptual',
    }),
    'CapyPDF_Text_Mode': ('TextMode', {
        'CAPY_TEXT_FILL': 'Fill',
        'CAPY_TEXT_STROKE': 'Stroke',
        'CAPY_TEXT_FILL_STROKE': 'FillStroke',
        'CAPY_TEXT_INVISIBLE': 'Invisible',
        'CAPY_TEXT_FILL_CLIP': 'FillClip',
        'CAPY_TEXT_STROKE_CLIP': 'StrokeClip',
        'CAPY_TEXT_FILL_STROKE_CLIP': 'FillStrokeClip',
        'CAPY_TEXT_CLIP': 'Clip',
    }),
    'CapyPDF_PDFX_Type': ('PdfXType', {
        'CAPY_PDFX_1_2001': 'X1_2001',
        'CAPY_PDFX_1A_2001': 'X1A_2001',
        'CAPY_PDFX_1A_2003': 'X1A_2003',
        'CAPY_PDFX_3_2002': 'X3_2002',
        'CAPY_PDFX_3_2003': 'X3_2003',
        'CAPY_PDFX_4': 'X4',
        'CAPY_PDFX_4P': 'X4P',
        'CAPY_PDFX_5G': 'X5G',
        'CAPY_PDFX_5PG': 'X5PG',
        'CAPY_PDFX_6': 'X6',
        'CAPY_PDFX_6p': 'X6p',
        'CAPY_PDFX_6n': 'X6n',
    }),
    'CapyPDF_PDFA_Type': ('PdfAType', {
        'CAPY_PDFA_1a': 'A1a',
        'CAPY_PDFA_1b': 'A1b',
        'CAPY_PDFA_2a': 'A2a',
        'CAPY_PDFA_2b': 'A2b',
        'CAPY_PDFA_2u': 'A2u',
        'CAPY_PDFA_3a': 'A3a',
        'CAPY_PDFA_3b': 'A3b',
        'CAPY_PDFA_3u': 'A3u',
        'CAPY_PDFA_4f': 'A4f',
        'CAPY_PDFA_4e': 'A4e',
    }),
    'CapyPDF_Image_Interpolation': ('ImageInterpolation', {
        'CAPY_INTERPOLATION_AUTO': 'Automatic',
        'CAPY_INTERPOLATION_PIXELATED': 'Pixelated',
        'CAPY_INTERPOLATION_SMOOTH': 'Smooth',
    }),
    'CapyPDF_Compression': ('Compression', {
        'CAPY_COMPRESSION_NONE': 'Not',
        'CAPY_COMPRESSION_DEFLATE': 'Deflate',
    }),
    'CapyPDF_Annotation_Flags': ('AnnotationFlag', {
        'CAPY_ANNOTATION_FLAG_INVISIBLE': 'Invisible',
        'CAPY_ANNOTATION_FLAG_HIDDEN': 'Hidden',
        'CAPY_ANNOTATION_FLAG_PRINT': 'Print',
        'CAPY_ANNOTATION_FLAG_NOZOOM': 'Nozoom',
        'CAPY_ANNOTATION_FLAG_NOROTATE': 'NoRotate',
        'CAPY_ANNOTATION_FLAG_NOVIEW': 'NoView',
        'CAPY_ANNOTATION_FLAG_READONLY': 'ReadOnly',
        'CAPY_ANNOTATION_FLAG_LOCKED': 'Locked',
        'CAPY_ANNOTATION_FLAG_TOGGLENOVIEW': 'ToggleNoView',
        'CAPY_ANNOTATION_FLAG_LOCKEDCONTENTS': 'LockedContents',
    }),
    'CapyPDF_Form_Field_Flags': ('FormFieldFlags', {
        'CAPY_FFIELD_NONE': 'Nothing',
        'CAPY_FFIELD_REQUIRED': 'Required',
        'CAPY_FFIELD_NOEXPORT': 'NoExport',
        'CAPY_FFIELD_MULTILINE': 'Multiline',
        'CAPY_FFIELD_PASSWORD': 'Password',
        'CAPY_FFIELD_NOTOGGLETOOFF': 'NoToggleToOff',
        'CAPY_FFIELD_RADIO': 'Radio',
        'CAPY_FFIELD_PUSHBUTTON': 'PushButton',
        'CAPY_FFIELD_COMBO': 'Combo',
        'CAPY_FFIELD_EDIT': 'Edit',
        'CAPY_FFIELD_SORT': 'Sort',
        'CAPY_FFIELD_FILESELECT': 'FileSelect',
        'CAPY_FFIELD_MULTISELECT': 'MultiSelect',
        'CAPY_FFIELD_DONOTSPELLCHECK': 'DoNotSpellcheck',
        'CAPY_FFIELD_DONOTSCROLL': 'DoNotScroll',
        'CAPY_FFIELD_COMB': 'Comb',
        'CAPY_FFIELD_RICHTEXT': 'RichText',
        'CAPY_FFIELD_RADIOSINUNISON': 'RadiosInUnison',
        'CAPY_FFIELD_COMMITONSELCHANGE': 'CommtOnSelChange',
    }),
    'CapyPDF_Structure_Type': ('StructureType', {
        'CAPY_STRUCTURE_TYPE_DOCUMENT': 'Document',
        'CAPY_STRUCTURE_TYPE_DOCUMENT_FRAGMENT': 'DocumentFragment',
        'CAPY_STRUCTURE_TYPE_PART': 'Part',
        'CAPY_STRUCTURE_TYPE_SECT': 'Sect',
        'CAPY_STRUCTURE_TYPE_DIV': 'Div',
        'CAPY_STRUCTURE_TYPE_ASIDE': 'Aside',
        'CAPY_STRUCTURE_TYPE_NONSTRUCT': 'Nonstruct',
        'CAPY_STRUCTURE_TYPE_P': 'P',
        'CAPY_STRUCTURE_TYPE_H': 'H',
        'CAPY_STRUCTURE_TYPE_H1': 'H1',
        'CAPY_STRUCTURE_TYPE_H2': 'H2',
        'CAPY_STRUCTURE_TYPE_H3': 'H3',
        'CAPY_STRUCTURE_TYPE_H4': 'H4',
        'CAPY_STRUCTURE_TYPE_H5': 'H5',
        'CAPY_STRUCTURE_TYPE_H6': 'H6',
        'CAPY_STRUCTURE_TYPE_H7': 'H7',
        'CAPY_STRUCTURE_TYPE_TITLE': 'Title',
        'CAPY_STRUCTURE_TYPE_FENOTE': 'FENote',
        'CAPY_STRUCTURE_TYPE_SUB': 'Sub',
        'CAPY_STRUCTURE_TYPE_LBL': 'Lbl',
        'CAPY_STRUCTURE_TYPE_SPAN': 'Span',
        'CAPY_STRUCTURE_TYPE_EM': 'Em',
        'CAPY_STRUCTURE_TYPE_STRONG': 'Strong',
        'CAPY_STRUCTURE_TYPE_LINK': 'Link',
        'CAPY_STRUCTURE_TYPE_ANNOT': 'Annot',
        'CAPY_STRUCTURE_TYPE_FORM': 'Form',
        'CAPY_STRUCTURE_TYPE_RUBY': 'Ruby',
        'CAPY_STRUCTURE_TYPE_RB': 'RB',
        'CAPY_STRUCTURE_TYPE_RT': 'RT',
        'CAPY_STRUCTURE_TYPE_RP': 'RP',
        'CAPY_STRUCTURE_TYPE_WARICHU': 'Warichu',
        'CAPY_STRUCTURE_TYPE_WT': 'WT',
        'CAPY_STRUCTURE_TYPE_WP': 'WP',
        'CAPY_STRUCTURE_TYPE_L': 'L',
        'CAPY_STRUCTURE_TYPE_LI': 'Li',
        'CAPY_STRUCTURE_TYPE_LBODY': 'LBody',
        'CAPY_STRUCTURE_TYPE_TABLE': 'Table',
        'CAPY_STRUCTURE_TYPE_TR': 'TR',
        'CAPY_STRUCTURE_TYPE_TH': 'TH',
        'CAPY_STRUCTURE_TYPE_TD': 'TD',
        'CAPY_STRUCTURE_TYPE_THEAD': 'Thead',
        'CAPY_STRUCTURE_TYPE_TBODY': 'TBody',
        'CAPY_STRUCTURE_TYPE_TFOOT': 'TFoot',
        'CAPY_STRUCTURE_TYPE_CAPTION': 'Caption',
        'CAPY_STRUCTURE_TYPE_FIGURE': 'Figure',
        'CAPY_STRUCTURE_TYPE_FORMULA': 'Formula',
        'CAPY_STRUCTURE_TYPE_ARTIFACT': 'Artifact',
    }),
    'CapyPDF_Page_Layout': ('PageLayout', {
        'CAPY_PAGE_LAYOUT_SINGLE_PAGE': 'SinglePage',
        'CAPY_PAGE_LAYOUT_ONE_COLUMN': 'OneColumn',
        'CAPY_PAGE_LAYOUT_TWO_COLUMN_LEFT': 'TwoColumnLeft',
        'CAPY_PAGE_LAYOUT_TWO_COLUMN_RIGHT': 'TwoColumnRight',
        'CAPY_PAGE_LAYOUT_TWO_PAGE_LEFT': 'TwoPageLeft',
        'CAPY_PAGE_LAYOUT_TWO_PAGE_RIGHT': 'TwoPageRight',
    }),
    'CapyPDF_Page_Mode': ('PageMode', {
        'CAPY_PAGE_MODE_USE_NONE': 'UseNone',
        'CAPY_PAGE_MODE_OUTLINES': 'Outlines',
        'CAPY_PAGE_MODE_THUMBS': 'Thumbs',
        'CAPY_PAGE_MODE_FULL_SCREEN': 'FullScreen',
        'CAPY_PAGE_MODE_OC': 'OC',
        'CAPY_PAGE_MODE_ATTACHMENTS': 'Attachments',
    }),
    'CapyPDF_Halftone_Spot_Function': ('HalftoneSpotFunction', {
        'CAPY_HT_FUNC_SIMPLEDOT': 'SimpleDot',
        'CAPY_HT_FUNC_INVERTED_SIMPLEDOT': 'Inverted_SimpleDot',
        'CAPY_HT_FUNC_DOUBLEDOT': 'DoubleDpt',
        'CAPY_HT_FUNC_INVERTED_DOUBLEDOT': 'Inverted_DoubldDot',
        'CAPY_HT_FUNC_COSINEDOT': 'CosineDot',
        'CAPY_HT_FUNC_DOUBLE': 'Double',
        'CAPY_HT_FUNC_INVERTED_DOUBLE': 'Inverted_Double',
        'CAPY_HT_FUNC_LINE': 'Line',
        'CAPY_HT_FUNC_LINEX': 'LineX',
        'CAPY_HT_FUNC_LINEY': 'LineY',
        'CAPY_HT_FUNC_ROUND': 'Round',
        'CAPY_HT_FUNC_ELLIPSE': 'Ellipse',
        'CAPY_HT_FUNC_ELLIPSEA': 'EllipseA',
        'CAPY_HT_FUNC_INVERTED_ELLIPSEA': 'Inverted_EllipseA',
        'CAPY_HT_FUNC_ELLIPSEB': 'EllipseB',
        'CAPY_HT_FUNC_ELLIPSEC': 'EllipseC',
        'CAPY_HT_FUNC_INVERTED_ELLIPSEC': 'Inverted_EllipseC',
        'CAPY_HT_FUNC_SQUARE': 'Square',
        'CAPY_HT_FUNC_CROSS': 'Cross',
        'CAPY_HT_FUNC_RHOMBOID': 'Rhomboid',
        'CAPY_HT_FUNC_DIAMOND': 'Diamond',
    }),
    'CapyPDF_3D_File_Format': ('ThreeDFileFormat', {
        'CAPY_3D_UDF': 'U3D',
        'CAPY_3D_PRC': 'PRC',
    }),
    'CapyPDF_Black_Point_Compensation': ('BlackPointCompensation', {
        'CAPY_BLACK_POINT_COMPENSATION_OFF': 'OFF',
        'CAPY_BLACK_POINT_COMPENSATION_ON': 'ON',
        'CAPY_BLACK_POINT_COMPENSATION_DEFAULT': 'DEFAULT',
    }),
    'CapyPDF_Form_Field_Type': ('FormFieldType', {
        'CAPY_FORM_FIELD_TYPE_BTN': 'BTN',
        'CAPY_FORM_FIELD_TYPE_TX': 'TX',
        'CAPY_FORM_FIELD_TYPE_CH': 'CH',
    }),
    'CapyPDF_Collection_View': ('CollectionView', {
        'CAPY_COLLECTION_D': 'D',
        'CAPY_COLLECTION_T': 'T',
        'CAPY_COLLECTION_H': 'H',
        'CAPY_COLLECTION_C': 'C',
    }),
}

class Unsup(Exception):
    pass

def load():
    global C
    sys.dont_write_bytecode = True
    import importlib.util
    spec = importlib.util.spec_from_file_location('capypdf', os.environ['MC_REPO'] + '/python/capypdf.py')
    C = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(C)

def enum(a):
    if a['n'] is None and a['t'] not in ('CapyPDF_Annotation_Flags', 'CapyPDF_Form_Field_Flags'):
        raise Unsup('enum value')
    cls, names = ENUMS.get(a['t'], (None, None))
    if cls is None:
        raise Unsup('enum ' + a['t'])
    if a['t'] == 'CapyPDF_Annotation_Flags':
        return flags(a['v'], cls, names, a['all'])
    if a['n'] not in names:
        raise Unsup('enumerator ' + a['n'])
    return getattr(getattr(C, cls), names[a['n']])

def flags(v, cls, names, allv):
    # a combination of named bits
    r = getattr(C, cls)(0)
    left = v
    for n, b in allv:
        if b and (v & b) == b and n in names:
            r |= getattr(getattr(C, cls), names[n])
            left &= ~b
    if left:
        raise Unsup('unnamed flags')
    return r

class Skip(Exception):
    pass

class Script:
    def __init__(self, req):
        self.req = req
        self.vars = {}
        self.mode = req['mode']
        self.managers = {}   # id of context -> stack of open context managers
        self.patterns = {}   # colour object -> pattern id it holds
        self.handed = set()

    # --- argument decoding
    def val(self, a):
        k = a['k']
        if 'var' in a:
            if a['var'] not in self.vars:
                raise Skip()
            v = self.vars[a['var']]
            if k in ('ID', 'OPTID') and not isinstance(v, ctypes.Structure):
                raise Unsup('id')
            return v
        v = a.get('v')
        if v is None:
            return None
        if k in ('STRN', 'OPTSTRN', 'CSTR'):
            b = bytes.fromhex(v)
            n = a['len']
            if n == -1:
                b = b.split(b'\0')[0]
            elif n != len(b):
                raise Unsup('explicit length')
            return b
        if k == 'BUF':
            return bytes.fromhex(v)
        if k in ('ENUM', 'OPTENUM'):
            return enum(a)
        if k in ('ID', 'OPTID'):
            return getattr(C, idclass(a['t']))(v)
        if k in ('DBL', 'OPTDBL'):
            return float(v)
        if k == 'IDARRN':
            return [self.val(dict(x, k='ID', t=a['t'])) for x in v]
        if k == 'HARR':
            return [self.val(dict(x, k='H')) for x in v]
        return v

    def run(self):
        out = []
        for i, (name, args) in enumerate(self.req['ops']):
            if self.req['inject'] == i + 1:
                LIB.rec_inject(LIB.rec_calls() + self.req['sub'], self.req['code'])
            out.append(self.one(name, args))
            LIB.rec_inject(0, 0)
        return out

    def one(self, name, args):
        f = OPS.get(name)
        try:
            vals = [self.val(a) for a in args if a['k'][:3] != 'OUT']
        except Skip:
            return 'skip'
        except Unsup as e:
            return 'unsup ' + str(e)
        outs = [a['v'] for a in args if a['k'][:3] == 'OUT']
        if name.endswith('_destroy'):
            slot = args[0].get('var')
            if slot is None:
                return 'unsup null'
            LIB.rec_clear()
            del vals
            o = self.vars.pop(slot)
            self.managers.pop(id(o), None)
            self.patterns.pop(id(o), None)
            del o
            gc.collect()
            return 'ok'
        if f is None:
            return 'unsup function'
        LIB.rec_clear()
        try:
            r = f(self, *vals)
        except Unsup as e:
            return 'unsup ' + str(e)
        except C.CapyPDFException as e:
            return 'err %d %s' % (LIB.rec_failure(), str(e).encode('utf-8', 'replace').hex())
        except Exception as e:
            return 'exc %d %s: %s' % (LIB.rec_failure(), type(e).__name__, str(e).replace('\n', ' '))
        if LIB.rec_failure() != 0:
            return 'lost %d' % LIB.rec_failure()
        if not outs:
            return 'ok'
        rs = r if isinstance(r, tuple) else (r,)
        if len(rs) != len(outs):
            return 'exc 0 wrong number of results'
        t = 'ok'
        for s, v in zip(outs, rs):
            self.vars[s] = v
            if hasattr(v, '_as_parameter_'):
                t += ' h'
            elif isinstance(v, ctypes.Structure):
                t += ' i%d' % v.id
            elif isinstance(v, float):
                t += ' d' + repr(v)
            elif isinstance(v, bool):
                t += ' i%d' % int(v)
            elif isinstance(v, int):
                t += ' i%d' % v
            elif hasattr(v, 'name'):
                cls, names = ENUMS['CapyPDF_Image_Colorspace']
                t += ' e' + {b: a for a, b in names.items()}[v.name]
            else:
                return 'exc 0 odd result ' + repr(v)
        return t

def idclass(t):
    n = t.replace('CapyPDF_', '')
    return {'3DStreamId': 'ThreeDStreamId'}.get(n, n)

def s(b):
    # the interface takes text
    try:
        return b.decode('UTF-8')
    except UnicodeDecodeError:
        raise Unsup('not text')

def path(b):
    if b'\0' in b:
        raise Unsup('zero in path')
    return b

OPS = {}
def op(name, text=(), flag=()):
    def w(f):
        def g(sc, *a):
            a = list(a)
            for i in text:
                a[i] = s(a[i])
            for i in flag:
                a[i] = bool_of(a[i], sc)
            return f(sc, *a)
        OPS['capy_' + name] = g
        return f
    return w

def bool_of(v, sc):
    if v not in (0, 1):
        raise Unsup('not a truth value')
    return bool(v) if sc.mode == 0 else v

def meth(name, cmd, text=(), flag=()):
    def f(sc, o, *a):
        return getattr(o, cmd)(*a)
    op(name, text, flag)(f)

def ctor(name, cls, text=(), flag=()):
    def f(sc, *a):
        return getattr(C, cls)(*a)
    op(name, text, flag)(f)

# objects without arguments
for n, c in (('document_properties', 'DocumentProperties'), ('page_properties', 'PageProperties'), ('text_sequence', 'TextSequence'), ('color', 'Color'),
             ('transition', 'Transition'), ('graphics_state', 'GraphicsState'), ('transparency_group_properties', 'TransparencyGroupProperties'),
             ('raster_image_builder', 'RasterImageBuilder'), ('struct_item_extra_data', 'StructItemExtraData'), ('image_pdf_properties', 'ImagePdfProperties'),
             ('destination', 'Destination'), ('outline', 'Outline'), ('embedded_file', 'EmbeddedFile'), ('font_properties', 'FontProperties'),
             ('halftone', 'Halftone'), ('collection', 'Collection')):
    ctor(n + '_new', c)
for n, c in (('link', 'link'), ('3d', '3d'), ('widget', 'widget'), ('file_attachment', 'file_attachment'), ('printers_mark', 'printers_mark')):
    op(n + '_annotation_new')(lambda sc, *a, c=c: getattr(C.Annotation, 'new_%s_annotation' % c)(*a))
op('text_annotation_new', (0,))(lambda sc, t: C.Annotation.new_text_annotation(t))
op('line_annotation_new', (0,))(lambda sc, *a: C.Annotation.new_line_annotation(*a))
ctor('soft_mask_new', 'SoftMask')
ctor('form_field_new', 'FormField')
ctor('shading_pattern_new', 'ShadingPattern')
ctor('type2_function_new', 'Type2Function')
ctor('type3_function_new', 'Type3Function')
ctor('type4_function_new', 'Type4Function', (2,))
ctor('type2_shading_new', 'Type2Shading')
ctor('type3_shading_new', 'Type3Shading')
ctor('type4_shading_new', 'Type4Shading')
ctor('type6_shading_new', 'Type6Shading')
ctor('optional_content_group_new', 'OptionalContentGroup', (0,))
op('3d_stream_new')(lambda sc, f, t: C.ThreeDStream(path(f), t))

for n in ('title', 'author', 'creator', 'language', 'output_intent', 'metadata_xml'):
    meth('document_properties_set_' + n, 'set_' + n, (1,))
for n in ('colorspace', 'pdfx', 'pdfa', 'default_page_properties', 'page_layout', 'page_mode'):
    meth('document_properties_set_' + n, 'set_' + n)
meth('document_properties_set_tagged', 'set_tagged', (), (1,))
op('document_properties_set_device_profile')(lambda sc, o, cs, p: o.set_device_profile(cs, path(p) if sc.mode == 0 else s(p)))
meth('page_properties_set_pagebox', 'set_pagebox')
meth('page_properties_set_transparency_group_properties', 'set_transparency_group_properties')

op('generator_new')(lambda sc, f, md: C.Generator(path(f) if sc.mode == 0 else s(f), md))
@op('generator_add_page')
def add_page(sc, g, dc):
    if sc.mode == 1 and isinstance(dc, C.DrawContext) and getattr(dc, 'generator', None) is g and id(dc) not in sc.handed:
        sc.handed.add(id(dc))
        dc.__enter__()
        dc.__exit__(None, None, None)
    else:
        g.add_page(dc)
for n in ('form_xobject', 'transparency_group', 'soft_mask', 'shading_pattern', 'tiling_pattern', 'image', 'function', 'shading', 'graphics_state', 'structure_item',
          '3d_stream', 'lab_colorspace', 'optional_content_group', 'annotation', 'form_field', 'outline'):
    def f(sc, g, *a, n=n):
        m = getattr(g, 'add_' + n)
        a = list(a)
        while sc.mode == 1 and a and a[-1] is None:
            a.pop()
        return m(*a)
    op('generator_add_' + n)(f)
@op('generator_add_custom_structure_item')
def custom(sc, g, role, parent, extra):
    return g.add_structure_item(role, parent, extra) if sc.mode == 0 else g.add_structure_item(role, parent=parent, extra=extra)
meth('generator_add_separation', 'add_separation', (1,))
meth('generator_add_rolemap_entry', 'add_rolemap_entry', (1,))
meth('generator_embed_file', 'embed_file')
meth('generator_convert_image', 'convert_image')
meth('generator_set_collection', 'set_collection')
meth('generator_text_width', 'text_width', (1,))
@op('generator_load_font')
def load_font(sc, g, f, props):
    if sc.mode == 1 and props is None:
        return g.load_font(s(f))
    return g.load_font(path(f), props)
op('generator_load_image')(lambda sc, g, f: g.load_image(path(f) if sc.mode == 0 else s(f)))
op('generator_load_icc_profile')(lambda sc, g, f: g.load_icc_profile(path(f) if sc.mode == 0 else s(f)))
@op('generator_write')
def write(sc, g):
    if sc.mode == 1:
        with g:
            pass
    else:
        g.write()

op('page_draw_context_new')(lambda sc, g: g.page_draw_context())
op('form_xobject_new')(lambda sc, g, *a: C.FormXObjectDrawContext(g, *a))
op('tiling_pattern_context_new')(lambda sc, g, *a: g.create_tiling_pattern_context(*a))
op('transparency_group_new')(lambda sc, g, *a: g.transparency_group_context(*a))

for n in 'b B bstar Bstar f fstar G g gs h i J j k K l m M n re RG rg ri s S sh v w W Wstar y c d'.split():
    meth('dc_cmd_' + n, 'cmd_' + n)
for n in ('render_text_obj', 'set_page_transition', 'set_custom_page_properties', 'annotate', 'set_transparency_group_properties', 'set_group_matrix'):
    meth('dc_' + n, n)
@op('dc_cmd_cm')
def cm(sc, dc, *m):
    if sc.mode == 1 and m[:4] == (1, 0, 0, 1):
        dc.translate(m[4], m[5])
    elif sc.mode == 1 and (m[1], m[2], m[4], m[5]) == (0, 0, 0, 0):
        dc.scale(m[0], m[3])
    else:
        dc.cmd_cm(*m)
@op('dc_cmd_q')
def q(sc, dc):
    if sc.mode == 1:
        m = dc.push_gstate()
        m.__enter__()
        sc.managers.setdefault(id(dc), []).append(('q', m))
    else:
        dc.cmd_q()
@op('dc_cmd_Q')
def Q(sc, dc):
    close(sc, dc, 'q', lambda: dc.cmd_Q())
def close(sc, o, kind, plain):
    st = sc.managers.get(id(o), [])
    if st and st[-1][0] == kind and st[-1][1] is not None:
        m = st.pop()[1]
        m.__exit__(None, None, None)
    else:
        plain()
def begin(sc, o, call):
    m = call()
    if sc.mode == 1 and m is not None:
        m.__enter__()
        sc.managers.setdefault(id(o), []).append(('m', m))
    elif sc.mode == 1:
        sc.managers.setdefault(id(o), []).append(('m', None))
@op('dc_cmd_EMC')
def EMC(sc, o):
    close(sc, o, 'm', lambda: o.cmd_EMC())
op('text_cmd_EMC')(EMC)
op('dc_cmd_BMC', (1,))(lambda sc, dc, t: begin(sc, dc, lambda: dc.cmd_BMC(t)))
op('dc_cmd_BDC_ocg')(lambda sc, dc, t: begin(sc, dc, lambda: dc.cmd_BDC(t)))
@op('dc_cmd_BDC_builtin')
def bdc(sc, dc, sid, tags):
    if tags is not None:
        raise Unsup('tags')
    begin(sc, dc, lambda: dc.cmd_BDC_builtin(sid))
op('text_cmd_BDC_builtin')(lambda sc, t, sid: begin(sc, t, lambda: t.cmd_BDC_builtin(sid)))
@op('dc_cmd_Do_trgroup')
def do(sc, dc, i):
    dc.cmd_Do(i)
op('dc_cmd_Do_image')(do)
meth('dc_render_text', 'render_text', (1,))
@op('dc_render_text_obj')
def rto(sc, dc, t):
    if sc.mode == 1 and getattr(t, 'dc', None) is dc and id(t) not in sc.handed:
        sc.handed.add(id(t))
        t.__enter__()
        t.__exit__(None, None, None)
    else:
        dc.render_text_obj(t)
@op('dc_add_simple_navigation')
def nav(sc, dc, ocgs, tr):
    if sc.mode == 1 and tr is None:
        dc.add_simple_navigation(ocgs)
    else:
        dc.add_simple_navigation(ocgs, tr)
op('dc_text_new')(lambda sc, dc: dc.text_new() if sc.mode == 0 else C.Text(dc))
for n in ('stroke', 'nonstroke'):
    def f(sc, o, c, n=n):
        if sc.mode == 1 and id(c) in sc.patterns and not isinstance(o, C.Text):
            c = sc.patterns[id(c)]
        return getattr(o, 'set_' + n)(c)
    op('dc_set_' + n)(f)
    op('text_set_' + n)(f)

for n in 'Tc Td Tf TJ TL Tm Tr Tstar gs'.split():
    meth('text_cmd_' + n, 'cmd_' + n)
meth('text_cmd_Tj', 'cmd_Tj', (1,))
op('text_sequence_append_codepoint')(lambda sc, t, c: t.append_codepoint(c if sc.mode == 0 or not (0 <= c < 0x110000) else chr(c)))
op('text_sequence_append_raw_glyph')(lambda sc, t, g, c: t.append_raw_glyph(g, c if sc.mode == 0 or not (0 <= c < 0x110000) else chr(c)))
meth('text_sequence_append_kerning', 'append_kerning')
meth('text_sequence_append_string', 'append_string', (1,))
meth('text_sequence_append_actualtext_start', 'append_actualtext_start', (1,))
meth('text_sequence_append_actualtext_end', 'append_actualtext_end')
meth('text_sequence_append_ligature_glyph', 'append_ligature_glyph', (2,))

def colour(name):
    def f(sc, c, *a):
        sc.patterns.pop(id(c), None)
        getattr(c, name)(*a)
        if name == 'set_pattern':
            sc.patterns[id(c)] = a[0]
    op('color_' + name)(f)
for n in ('rgb', 'gray', 'cmyk', 'icc', 'separation', 'pattern', 'lab'):
    colour('set_' + n)
for n in ('S', 'D', 'M', 'Di', 'SS'):
    meth('transition_set_' + n, 'set_' + n)
@op('transition_set_Dm')
def dm(sc, t, v):
    # the historical name of the method
    return (t.set_Dm if hasattr(t, 'set_Dm') and (sc.mode == 0 or not hasattr(t, 'set_Dn')) else t.set_Dn)(v)
meth('transition_set_B', 'set_B', (), (1,))
for n in ('CA', 'ca', 'BM', 'OPM', 'HT', 'SMask', 'blackpoint_compensation'):
    meth('graphics_state_set_' + n, 'set_' + n)
for n in ('op', 'OP', 'TK'):
    meth('graphics_state_set_' + n, 'set_' + n, (), (1,))
meth('transparency_group_properties_set_CS', 'set_CS')
meth('transparency_group_properties_set_I', 'set_I', (), (1,))
meth('transparency_group_properties_set_K', 'set_K', (), (1,))
for n in ('set_size', 'set_pixel_data', 'set_input_data_compression_format', 'build'):
    meth('raster_image_builder_' + n, n)
for n in ('get_size', 'get_colorspace', 'has_profile'):
    meth('raster_image_' + n, n)
def only(cls, name, cmd, flag=()):
    def f(sc, o, *a):
        if not hasattr(o, cmd) and isinstance(o, (C.Type4Shading, C.Type6Shading)):
            raise Unsup('kind of shading')
        return getattr(o, cmd)(*a)
    op(name, (), flag)(f)
only('', 'shading_set_extend', 'set_extend', (1, 2))
only('', 'shading_set_domain', 'set_domain')
meth('type4_shading_add_triangle', 'add_triangle')
meth('type4_shading_extend', 'extend')
meth('type6_shading_add_patch', 'add_patch')
meth('type6_shading_extend', 'extend')
meth('shading_pattern_set_matrix', 'set_matrix')
for n in ('set_destination', 'set_rectangle', 'set_flags', 'set_3d_stream', 'set_line_leader', 'set_line_endings', 'set_parent_field'):
    meth('annotation_' + n, n)
meth('annotation_set_uri', 'set_uri', (1,))
meth('annotation_set_widget_button_appearance', 'set_widget_button_appearance', (3,))
for n in ('t', 'lang', 'alt', 'actual_text'):
    meth('struct_item_extra_data_set_' + n, 'set_' + n, (1,))
meth('image_pdf_properties_set_mask', 'set_mask', (), (1,))
meth('image_pdf_properties_set_interpolate', 'set_interpolate')
meth('destination_set_page_fit', 'set_page_fit')
@op('destination_set_page_xyz')
def xyz(sc, d, p, x, y, z):
    if sc.mode == 0:
        return d.set_page_xyz(p, x, y, z)
    return d.set_page_xyz(p, **{k: v for k, v in (('x', x), ('y', y), ('z', z)) if v is not None})
meth('outline_set_title', 'set_title', (1,))
for n in ('destination', 'C', 'F', 'parent'):
    meth('outline_set_' + n, 'set_' + n)
op('embedded_file_load_file')(lambda sc, e, p: e.load_file(path(p) if sc.mode == 0 else s(p)))
op('embedded_file_set_contents')(lambda sc, e, b: e.set_contents(b))
meth('embedded_file_set_subtype', 'set_subtype', (1,))
meth('embedded_file_set_pdf_name', 'set_pdf_name', (1,))
meth('font_properties_set_subfont', 'set_subfont')
meth('font_properties_set_named_instance', 'set_named_instance')
meth('font_properties_set_variation', 'set_variation', (1,))
@op('halftone_set_default')
def htd(sc, h):
    # the method takes an argument it does not need
    import inspect
    h.set_default(*([None] * len(inspect.signature(h.set_default).parameters)))
meth('halftone_set_type1', 'set_type1')
meth('form_field_set_parent', 'set_parent')
@op('form_field_set_Ff')
def ff(sc, f, v):
    f.set_Ff(flags(v, *ENUMS['CapyPDF_Form_Field_Flags'], sc.req['ff']))
meth('form_field_set_T', 'set_T', (1,))
meth('form_field_add_Opt_entry', 'add_Opt_entry', (1,))
op('form_field_set_V')(lambda sc, f, v: f.set_V(v if sc.mode == 0 else s(v)))
op('collection_set_D')(lambda sc, f, v: f.set_D(v if sc.mode == 0 else s(v)))
meth('collection_set_view', 'set_view')

def run(req):
    sys.unraisablehook = lambda u: None  # destructors of objects that were never made
    sc = Script(req)
    out = sc.run()
    calls = LIB.rec_calls()
    if req['forward']:
        for k in sorted(sc.vars):
            del sc.vars[k]
    del sc
    gc.collect()
    LIB.rec_problems.restype = ctypes.c_char_p
    out.append('end %d %d %s' % (calls, LIB.rec_hit(), LIB.rec_problems().decode()))
    return '\n'.join(out)

def main():
    global LIB
    fin, fout = os.fdopen(0, 'rb'), os.fdopen(os.dup(1), 'wb')
    os.dup2(2, 1)
    try:
        load()
        LIB = ctypes.CDLL(os.environ['CAPYPDF_SO_OVERRIDE'] + '/libcapypdf.so')
    except BaseException:
        LIB = None
        broken = traceback.format_exc()
    while True:
        n = fin.readline()
        if not n:
            return
        data = fin.read(int(n))
        if LIB is None:
            res = b'broken ' + broken.replace('\n', ' ').encode()
        else:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                signal.alarm(20)
                try:
                    t = run(json.loads(data)).encode()
                except BaseException:
                    t = b'broken ' + traceback.format_exc().replace('\n', ' ').encode()
                with os.fdopen(w, 'wb') as f:
                    f.write(t)
                os._exit(0)
            os.close(w)
            with os.fdopen(r, 'rb') as f:
                res = f.read()
            st = os.waitpid(pid, 0)[1]
            if st != 0:
                res = b'crash %d' % st
        fout.write(b'%d\n' % len(res) + res)
        fout.flush()

main()
