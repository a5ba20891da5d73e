TAG(A, "a")
TAG(Abbr, "abbr")
TAG(Abs, "abs")
TAG(Address, "address")
TAG(AltGlyph, "altGlyph")
TAG(AltGlyphDef, "altGlyphDef")
TAG(AltGlyphItem, "altGlyphItem")
TAG(Altglyph, "altglyph")
TAG(Altglyphdef, "altglyphdef")
TAG(Altglyphitem, "altglyphitem")
TAG(And, "and")
TAG(Animate, "animate")
TAG(AnimateColor, "animateColor")
TAG(AnimateMotion, "animateMotion")
TAG(AnimateTransform, "animateTransform")
TAG(Animatecolor, "animatecolor")
TAG(Animatemotion, "animatemotion")
TAG(Animatetransform, "animatetransform")
TAG(Annotation, "annotation")
TAG(Annotation_xml, "annotation-xml")
TAG(Applet, "applet")
TAG(Apply, "apply")
TAG(Approx, "approx")
TAG(Arccos, "arccos")
TAG(Arccosh, "arccosh")
TAG(Arccot, "arccot")
TAG(Arccoth, "arccoth")
TAG(Arccsc, "arccsc")
TAG(Arccsch, "arccsch")
TAG(Arcsec, "arcsec")
TAG(Arcsech, "arcsech")
TAG(Arcsin, "arcsin")
TAG(Arcsinh, "arcsinh")
TAG(Arctan, "arctan")
TAG(Arctanh, "arctanh")
TAG(Area, "area")
TAG(Arg, "arg")
TAG(Article, "article")
TAG(Aside, "aside")
TAG(Audio, "audio")
TAG(B, "b")
TAG(Base, "base")
TAG(Basefont, "basefont")
TAG(Bdi, "bdi")
TAG(Bdo, "bdo")
TAG(Bgsound, "bgsound")
TAG(Big, "big")
TAG(Bind, "bind")
TAG(Blockquote, "blockquote")
TAG(Body, "body")
TAG(Br, "br")
TAG(Button, "button")
TAG(Bvar, "bvar")
TAG(Canvas, "canvas")
TAG(Caption, "caption")
TAG(Card, "card")
TAG(Cartesianproduct, "cartesianproduct")
TAG(Cbytes, "cbytes")
TAG(Ceiling, "ceiling")
TAG(Center, "center")
TAG(Cerror, "cerror")
TAG(Ci, "ci")
TAG(Circle, "circle")
TAG(Cite, "cite")
TAG(ClipPath, "clipPath")
TAG(Clippath, "clippath")
TAG(Cn, "cn")
TAG(Code, "code")
TAG(Codomain, "codomain")
TAG(Col, "col")
TAG(Colgroup, "colgroup")
TAG(Complexes, "complexes")
TAG(Compose, "compose")
TAG(Condition, "condition")
TAG(Conjugate, "conjugate")
TAG(Cos, "cos")
TAG(Cosh, "cosh")
TAG(Cot, "cot")
TAG(Coth, "coth")
TAG(Cs, "cs")
TAG(Csc, "csc")
TAG(Csch, "csch")
TAG(Csymbol, "csymbol")
TAG(Curl, "curl")
TAG(Data, "data")
TAG(Datalist, "datalist")
TAG(Dd, "dd")
TAG(Declare, "declare")
TAG(Defs, "defs")
TAG(Degree, "degree")
TAG(Del, "del")
TAG(Desc, "desc")
TAG(Details, "details")
TAG(Determinant, "determinant")
TAG(Dfn, "dfn")
TAG(Dialog, "dialog")
TAG(Diff, "diff")
TAG(Dir, "dir")
TAG(Discard, "discard")
TAG(Div, "div")
TAG(Divergence, "divergence")
TAG(Divide, "divide")
TAG(Dl, "dl")
TAG(Domain, "domain")
TAG(Domainofapplication, "domainofapplication")
TAG(Dt, "dt")
TAG(Ellipse, "ellipse")
TAG(Em, "em")
TAG(Embed, "embed")
TAG(Emptyset, "emptyset")
TAG(Eq, "eq")
TAG(Equivalent, "equivalent")
TAG(Eulergamma, "eulergamma")
TAG(Exists, "exists")
TAG(Exp, "exp")
TAG(Exponentiale, "exponentiale")
TAG(Factorial, "factorial")
TAG(Factorof, "factorof")
TAG(False, "false")
TAG(FeBlend, "feBlend")
TAG(FeColorMatrix, "feColorMatrix")
TAG(FeComponentTransfer, "feComponentTransfer")
TAG(FeComposite, "feComposite")
TAG(FeConvolveMatrix, "feConvolveMatrix")
TAG(FeDiffuseLighting, "feDiffuseLighting")
TAG(FeDisplacementMap, "feDisplacementMap")
TAG(FeDistantLight, "feDistantLight")
TAG(FeDropShadow, "feDropShadow")
TAG(FeFlood, "feFlood")
TAG(FeFuncA, "feFuncA")
TAG(FeFuncB, "feFuncB")
TAG(FeFuncG, "feFuncG")
TAG(FeFuncR, "feFuncR")
TAG(FeGaussianBlur, "feGaussianBlur")
TAG(FeImage, "feImage")
TAG(FeMerge, "feMerge")
TAG(FeMergeNode, "feMergeNode")
TAG(FeMorphology, "feMorphology")
TAG(FeOffset, "feOffset")
TAG(FePointLight, "fePointLight")
TAG(FeSpecularLighting, "feSpecularLighting")
TAG(FeSpotLight, "feSpotLight")
TAG(FeTile, "feTile")
TAG(FeTurbulence, "feTurbulence")
TAG(Feblend, "feblend")
TAG(Fecolormatrix, "fecolormatrix")
TAG(Fecomponenttransfer, "fecomponenttransfer")
TAG(Fecomposite, "fecomposite")
TAG(Feconvolvematrix, "feconvolvematrix")
TAG(Fediffuselighting, "fediffuselighting")
TAG(Fedisplacementmap, "fedisplacementmap")
TAG(Fedistantlight, "fedistantlight")
TAG(Fedropshadow, "fedropshadow")
TAG(Feflood, "feflood")
TAG(Fefunca, "fefunca")
TAG(Fefuncb, "fefuncb")
TAG(Fefuncg, "fefuncg")
TAG(Fefuncr, "fefuncr")
TAG(Fegaussianblur, "fegaussianblur")
TAG(Feimage, "feimage")
TAG(Femerge, "femerge")
TAG(Femergenode, "femergenode")
TAG(Femorphology, "femorphology")
TAG(Feoffset, "feoffset")
TAG(Fepointlight, "fepointlight")
TAG(Fespecularlighting, "fespecularlighting")
TAG(Fespotlight, "fespotlight")
TAG(Fetile, "fetile")
TAG(Feturbulence, "feturbulence")
TAG(Fieldset, "fieldset")
TAG(Figcaption, "figcaption")
TAG(Figure, "figure")
TAG(Filter, "filter")
TAG(Floor, "floor")
TAG(Fn, "fn")
TAG(Font, "font")
TAG(Footer, "footer")
TAG(Forall, "forall")
TAG(ForeignObject, "foreignObject")
TAG(Foreignobject, "foreignobject")
TAG(Form, "form")
TAG(Frame, "frame")
TAG(Frameset, "frameset")
TAG(G, "g")
TAG(Gcd, "gcd")
TAG(Geq, "geq")
TAG(GlyphRef, "glyphRef")
TAG(Glyphref, "glyphref")
TAG(Grad, "grad")
TAG(Gt, "gt")
TAG(H1, "h1")
TAG(H2, "h2")
TAG(H3, "h3")
TAG(H4, "h4")
TAG(H5, "h5")
TAG(H6, "h6")
TAG(Head, "head")
TAG(Header, "header")
TAG(Hgroup, "hgroup")
TAG(Hr, "hr")
TAG(Html, "html")
TAG(I, "i")
TAG(Ident, "ident")
TAG(Iframe, "iframe")
TAG(Image, "image")
TAG(Imaginary, "imaginary")
TAG(Imaginaryi, "imaginaryi")
TAG(Img, "img")
TAG(Implies, "implies")
TAG(In, "in")
TAG(Infinity, "infinity")
TAG(Input, "input")
TAG(Ins, "ins")
TAG(Int, "int")
TAG(Integers, "integers")
TAG(Intersect, "intersect")
TAG(Interval, "interval")
TAG(Inverse, "inverse")
TAG(Kbd, "kbd")
TAG(Keygen, "keygen")
TAG(Label, "label")
TAG(Lambda, "lambda")
TAG(Laplacian, "laplacian")
TAG(Lcm, "lcm")
TAG(Legend, "legend")
TAG(Leq, "leq")
TAG(Li, "li")
TAG(Limit, "limit")
TAG(Line, "line")
TAG(LinearGradient, "linearGradient")
TAG(Lineargradient, "lineargradient")
TAG(Link, "link")
TAG(List, "list")
TAG(Listing, "listing")
TAG(Ln, "ln")
TAG(Log, "log")
TAG(Logbase, "logbase")
TAG(Lowlimit, "lowlimit")
TAG(Lt, "lt")
TAG(Maction, "maction")
TAG(Main, "main")
TAG(Maligngroup, "maligngroup")
TAG(Malignmark, "malignmark")
TAG(Map, "map")
TAG(Mark, "mark")
TAG(Marker, "marker")
TAG(Marquee, "marquee")
TAG(Mask, "mask")
TAG(Math, "math")
TAG(Matrix, "matrix")
TAG(Matrixrow, "matrixrow")
TAG(Max, "max")
TAG(Mean, "mean")
TAG(Median, "median")
TAG(Menclose, "menclose")
TAG(Menu, "menu")
TAG(Merror, "merror")
TAG(Meta, "meta")
TAG(Metadata, "metadata")
TAG(Meter, "meter")
TAG(Mfenced, "mfenced")
TAG(Mfrac, "mfrac")
TAG(Mglyph, "mglyph")
TAG(Mi, "mi")
TAG(Min, "min")
TAG(Minus, "minus")
TAG(Mlabeledtr, "mlabeledtr")
TAG(Mlongdiv, "mlongdiv")
TAG(Mmultiscripts, "mmultiscripts")
TAG(Mn, "mn")
TAG(Mo, "mo")
TAG(Mode, "mode")
TAG(Moment, "moment")
TAG(Momentabout, "momentabout")
TAG(Mover, "mover")
TAG(Mpadded, "mpadded")
TAG(Mpath, "mpath")
TAG(Mphantom, "mphantom")
TAG(Mprescripts, "mprescripts")
TAG(Mroot, "mroot")
TAG(Mrow, "mrow")
TAG(Ms, "ms")
TAG(Mscarries, "mscarries")
TAG(Mscarry, "mscarry")
TAG(Msgroup, "msgroup")
TAG(Msline, "msline")
TAG(Mspace, "mspace")
TAG(Msqrt, "msqrt")
TAG(Msrow, "msrow")
TAG(Mstack, "mstack")
TAG(Mstyle, "mstyle")
TAG(Msub, "msub")
TAG(Msubsup, "msubsup")
TAG(Msup, "msup")
TAG(Mtable, "mtable")
TAG(Mtd, "mtd")
TAG(Mtext, "mtext")
TAG(Mtr, "mtr")
TAG(Munder, "munder")
TAG(Munderover, "munderover")
TAG(Naturalnumbers, "naturalnumbers")
TAG(Nav, "nav")
TAG(Neq, "neq")
TAG(Nobr, "nobr")
TAG(Noembed, "noembed")
TAG(Noframes, "noframes")
TAG(None, "none")
TAG(Noscript, "noscript")
TAG(Not, "not")
TAG(Notanumber, "notanumber")
TAG(Notin, "notin")
TAG(Notprsubset, "notprsubset")
TAG(Notsubset, "notsubset")
TAG(Object, "object")
TAG(Ol, "ol")
TAG(Optgroup, "optgroup")
TAG(Option, "option")
TAG(Or, "or")
TAG(Otherwise, "otherwise")
TAG(Outerproduct, "outerproduct")
TAG(Output, "output")
TAG(P, "p")
TAG(Param, "param")
TAG(Partialdiff, "partialdiff")
TAG(Path, "path")
TAG(Pattern, "pattern")
TAG(Pi, "pi")
TAG(Picture, "picture")
TAG(Piece, "piece")
TAG(Piecewise, "piecewise")
TAG(Plaintext, "plaintext")
TAG(Plus, "plus")
TAG(Polygon, "polygon")
TAG(Polyline, "polyline")
TAG(Power, "power")
TAG(Pre, "pre")
TAG(Primes, "primes")
TAG(Product, "product")
TAG(Progress, "progress")
TAG(Prsubset, "prsubset")
TAG(Q, "q")
TAG(Quotient, "quotient")
TAG(RadialGradient, "radialGradient")
TAG(Radialgradient, "radialgradient")
TAG(Rationals, "rationals")
TAG(Rb, "rb")
TAG(Real, "real")
TAG(Reals, "reals")
TAG(Rect, "rect")
TAG(Reln, "reln")
TAG(Rem, "rem")
TAG(Root, "root")
TAG(Rp, "rp")
TAG(Rt, "rt")
TAG(Rtc, "rtc")
TAG(Ruby, "ruby")
TAG(S, "s")
TAG(Samp, "samp")
TAG(Scalarproduct, "scalarproduct")
TAG(Script, "script")
TAG(Sdev, "sdev")
TAG(Sec, "sec")
TAG(Sech, "sech")
TAG(Section, "section")
TAG(Select, "select")
TAG(Selector, "selector")
TAG(Semantics, "semantics")
TAG(Sep, "sep")
TAG(Set, "set")
TAG(Setdiff, "setdiff")
TAG(Share, "share")
TAG(Sin, "sin")
TAG(Sinh, "sinh")
TAG(Slot, "slot")
TAG(Small, "small")
TAG(Source, "source")
TAG(Span, "span")
TAG(Stop, "stop")
TAG(Strike, "strike")
TAG(Strong, "strong")
TAG(Style, "style")
TAG(Sub, "sub")
TAG(Subset, "subset")
TAG(Sum, "sum")
TAG(Summary, "summary")
TAG(Sup, "sup")
TAG(Svg, "svg")
TAG(Switch, "switch")
TAG(Symbol, "symbol")
TAG(Table, "table")
TAG(Tan, "tan")
TAG(Tanh, "tanh")
TAG(Tbody, "tbody")
TAG(Td, "td")
TAG(Template, "template")
TAG(Tendsto, "tendsto")
TAG(Text, "text")
TAG(TextPath, "textPath")
TAG(Textarea, "textarea")
TAG(Textpath, "textpath")
TAG(Tfoot, "tfoot")
TAG(Th, "th")
TAG(Thead, "thead")
TAG(Time, "time")
TAG(Times, "times")
TAG(Title, "title")
TAG(Tr, "tr")
TAG(Track, "track")
TAG(Transpose, "transpose")
TAG(True, "true")
TAG(Tspan, "tspan")
TAG(Tt, "tt")
TAG(U, "u")
TAG(Ul, "ul")
TAG(Union, "union")
TAG(Uplimit, "uplimit")
TAG(Use, "use")
TAG(Var, "var")
TAG(Variance, "variance")
TAG(Vector, "vector")
TAG(Vectorproduct, "vectorproduct")
TAG(Video, "video")
TAG(View, "view")
TAG(Wbr, "wbr")
TAG(Xmp, "xmp")
TAG(Xor, "xor")
ATTR(Abbr, "abbr")
ATTR(Accent, "accent")
ATTR(Accentunder, "accentunder")
ATTR(Accept, "accept")
ATTR(Accept_charset, "accept-charset")
ATTR(Accesskey, "accesskey")
ATTR(Accumulate, "accumulate")
ATTR(Action, "action")
ATTR(Actiontype, "actiontype")
ATTR(Actuate, "actuate")
ATTR(Additive, "additive")
ATTR(Align, "align")
ATTR(Alignment_baseline, "alignment-baseline")
ATTR(Alignmentscope, "alignmentscope")
ATTR(Allow, "allow")
ATTR(Allowfullscreen, "allowfullscreen")
ATTR(Allowpaymentrequest, "allowpaymentrequest")
ATTR(Alt, "alt")
ATTR(Altimg, "altimg")
ATTR(Altimg_height, "altimg-height")
ATTR(Altimg_valign, "altimg-valign")
ATTR(Altimg_width, "altimg-width")
ATTR(Alttext, "alttext")
ATTR(Amplitude, "amplitude")
ATTR(Annotation_xml, "annotation-xml")
ATTR(Arcrole, "arcrole")
ATTR(Aria_activedescendant, "aria-activedescendant")
ATTR(Aria_atomic, "aria-atomic")
ATTR(Aria_autocomplete, "aria-autocomplete")
ATTR(Aria_busy, "aria-busy")
ATTR(Aria_checked, "aria-checked")
ATTR(Aria_colcount, "aria-colcount")
ATTR(Aria_colindex, "aria-colindex")
ATTR(Aria_colspan, "aria-colspan")
ATTR(Aria_controls, "aria-controls")
ATTR(Aria_current, "aria-current")
ATTR(Aria_describedby, "aria-describedby")
ATTR(Aria_details, "aria-details")
ATTR(Aria_disabled, "aria-disabled")
ATTR(Aria_dropeffect, "aria-dropeffect")
ATTR(Aria_errormessage, "aria-errormessage")
ATTR(Aria_expanded, "aria-expanded")
ATTR(Aria_flowto, "aria-flowto")
ATTR(Aria_grabbed, "aria-grabbed")
ATTR(Aria_haspopup, "aria-haspopup")
ATTR(Aria_hidden, "aria-hidden")
ATTR(Aria_invalid, "aria-invalid")
ATTR(Aria_keyshortcuts, "aria-keyshortcuts")
ATTR(Aria_label, "aria-label")
ATTR(Aria_labelledby, "aria-labelledby")
ATTR(Aria_level, "aria-level")
ATTR(Aria_live, "aria-live")
ATTR(Aria_modal, "aria-modal")
ATTR(Aria_multiline, "aria-multiline")
ATTR(Aria_multiselectable, "aria-multiselectable")
ATTR(Aria_orientation, "aria-orientation")
ATTR(Aria_owns, "aria-owns")
ATTR(Aria_placeholder, "aria-placeholder")
ATTR(Aria_posinset, "aria-posinset")
ATTR(Aria_pressed, "aria-pressed")
ATTR(Aria_readonly, "aria-readonly")
ATTR(Aria_relevant, "aria-relevant")
ATTR(Aria_required, "aria-required")
ATTR(Aria_roledescription, "aria-roledescription")
ATTR(Aria_rowcount, "aria-rowcount")
ATTR(Aria_rowindex, "aria-rowindex")
ATTR(Aria_rowspan, "aria-rowspan")
ATTR(Aria_selected, "aria-selected")
ATTR(Aria_setsize, "aria-setsize")
ATTR(Aria_sort, "aria-sort")
ATTR(Aria_valuemax, "aria-valuemax")
ATTR(Aria_valuemin, "aria-valuemin")
ATTR(Aria_valuenow, "aria-valuenow")
ATTR(Aria_valuetext, "aria-valuetext")
ATTR(As, "as")
ATTR(Async, "async")
ATTR(AttributeName, "attributeName")
ATTR(AttributeType, "attributeType")
ATTR(Attributename, "attributename")
ATTR(Attributetype, "attributetype")
ATTR(Autocapitalize, "autocapitalize")
ATTR(Autocomplete, "autocomplete")
ATTR(Autofocus, "autofocus")
ATTR(Autoplay, "autoplay")
ATTR(Azimuth, "azimuth")
ATTR(Background, "background")
ATTR(Base, "base")
ATTR(BaseFrequency, "baseFrequency")
ATTR(BaseProfile, "baseProfile")
ATTR(Basefrequency, "basefrequency")
ATTR(Baseline, "baseline")
ATTR(Baseline_shift, "baseline-shift")
ATTR(Baseprofile, "baseprofile")
ATTR(Begin, "begin")
ATTR(Bevelled, "bevelled")
ATTR(Bias, "bias")
ATTR(By, "by")
ATTR(CalcMode, "calcMode")
ATTR(Calcmode, "calcmode")
ATTR(Cd, "cd")
ATTR(Cdgroup, "cdgroup")
ATTR(Charalign, "charalign")
ATTR(Charset, "charset")
ATTR(Charspacing, "charspacing")
ATTR(Checked, "checked")
ATTR(Cite, "cite")
ATTR(Class, "class")
ATTR(Clip, "clip")
ATTR(Clip_path, "clip-path")
ATTR(Clip_rule, "clip-rule")
ATTR(ClipPathUnits, "clipPathUnits")
ATTR(Clippathunits, "clippathunits")
ATTR(Close, "close")
ATTR(Closure, "closure")
ATTR(Color, "color")
ATTR(Color_interpolation, "color-interpolation")
ATTR(Color_interpolation_filters, "color-interpolation-filters")
ATTR(Cols, "cols")
ATTR(Colspan, "colspan")
ATTR(Columnalign, "columnalign")
ATTR(Columnalignment, "columnalignment")
ATTR(Columnlines, "columnlines")
ATTR(Columnspacing, "columnspacing")
ATTR(Columnspan, "columnspan")
ATTR(Columnwidth, "columnwidth")
ATTR(Content, "content")
ATTR(Contenteditable, "contenteditable")
ATTR(Controls, "controls")
ATTR(Coords, "coords")
ATTR(Crossorigin, "crossorigin")
ATTR(Crossout, "crossout")
ATTR(Cursor, "cursor")
ATTR(Cx, "cx")
ATTR(Cy, "cy")
ATTR(Data, "data")
ATTR(Datetime, "datetime")
ATTR(Decimalpoint, "decimalpoint")
ATTR(Decoding, "decoding")
ATTR(Default, "default")
ATTR(Defer, "defer")
ATTR(DefinitionURL, "definitionURL")
ATTR(Definitionurl, "definitionurl")
ATTR(Denomalign, "denomalign")
ATTR(Depth, "depth")
ATTR(DiffuseConstant, "diffuseConstant")
ATTR(Diffuseconstant, "diffuseconstant")
ATTR(Dir, "dir")
ATTR(Direction, "direction")
ATTR(Dirname, "dirname")
ATTR(Disabled, "disabled")
ATTR(Display, "display")
ATTR(Displaystyle, "displaystyle")
ATTR(Divisor, "divisor")
ATTR(Dominant_baseline, "dominant-baseline")
ATTR(Download, "download")
ATTR(Draggable, "draggable")
ATTR(Dur, "dur")
ATTR(Dx, "dx")
ATTR(Dy, "dy")
ATTR(Edge, "edge")
ATTR(EdgeMode, "edgeMode")
ATTR(Edgemode, "edgemode")
ATTR(Elevation, "elevation")
ATTR(Encoding, "encoding")
ATTR(Enctype, "enctype")
ATTR(End, "end")
ATTR(Enterkeyhint, "enterkeyhint")
ATTR(Equalcolumns, "equalcolumns")
ATTR(Equalrows, "equalrows")
ATTR(Exponent, "exponent")
ATTR(Fence, "fence")
ATTR(Fill, "fill")
ATTR(Fill_opacity, "fill-opacity")
ATTR(Fill_rule, "fill-rule")
ATTR(Filter, "filter")
ATTR(FilterUnits, "filterUnits")
ATTR(Filterunits, "filterunits")
ATTR(Flood_color, "flood-color")
ATTR(Flood_opacity, "flood-opacity")
ATTR(Font_family, "font-family")
ATTR(Font_size, "font-size")
ATTR(Font_size_adjust, "font-size-adjust")
ATTR(Font_stretch, "font-stretch")
ATTR(Font_style, "font-style")
ATTR(Font_variant, "font-variant")
ATTR(Font_weight, "font-weight")
ATTR(Fontfamily, "fontfamily")
ATTR(Fontsize, "fontsize")
ATTR(Fontstyle, "fontstyle")
ATTR(Fontweight, "fontweight")
ATTR(For, "for")
ATTR(Form, "form")
ATTR(Formaction, "formaction")
ATTR(Formenctype, "formenctype")
ATTR(Formmethod, "formmethod")
ATTR(Formnovalidate, "formnovalidate")
ATTR(Formtarget, "formtarget")
ATTR(Fr, "fr")
ATTR(Frame, "frame")
ATTR(Framespacing, "framespacing")
ATTR(From, "from")
ATTR(Fx, "fx")
ATTR(Fy, "fy")
ATTR(Glyph_orientation_horizontal, "glyph-orientation-horizontal")
ATTR(Glyph_orientation_vertical, "glyph-orientation-vertical")
ATTR(GlyphRef, "glyphRef")
ATTR(Glyphref, "glyphref")
ATTR(GradientTransform, "gradientTransform")
ATTR(GradientUnits, "gradientUnits")
ATTR(Gradienttransform, "gradienttransform")
ATTR(Gradientunits, "gradientunits")
ATTR(Groupalign, "groupalign")
ATTR(Headers, "headers")
ATTR(Height, "height")
ATTR(Hidden, "hidden")
ATTR(High, "high")
ATTR(Href, "href")
ATTR(Hreflang, "hreflang")
ATTR(Http_equiv, "http-equiv")
ATTR(Id, "id")
ATTR(Image_rendering, "image-rendering")
ATTR(Imagesizes, "imagesizes")
ATTR(Imagesrcset, "imagesrcset")
ATTR(In, "in")
ATTR(In2, "in2")
ATTR(Indentalign, "indentalign")
ATTR(Indentalignfirst, "indentalignfirst")
ATTR(Indentalignlast, "indentalignlast")
ATTR(Indentshift, "indentshift")
ATTR(Indentshiftfirst, "indentshiftfirst")
ATTR(Indentshiftlast, "indentshiftlast")
ATTR(Indenttarget, "indenttarget")
ATTR(Index, "index")
ATTR(Infixlinebreakstyle, "infixlinebreakstyle")
ATTR(Inputmode, "inputmode")
ATTR(Integer, "integer")
ATTR(Integrity, "integrity")
ATTR(Intercept, "intercept")
ATTR(Is, "is")
ATTR(Ismap, "ismap")
ATTR(Itemid, "itemid")
ATTR(Itemprop, "itemprop")
ATTR(Itemref, "itemref")
ATTR(Itemscope, "itemscope")
ATTR(Itemtype, "itemtype")
ATTR(K1, "k1")
ATTR(K2, "k2")
ATTR(K3, "k3")
ATTR(K4, "k4")
ATTR(KernelMatrix, "kernelMatrix")
ATTR(KernelUnitLength, "kernelUnitLength")
ATTR(Kernelmatrix, "kernelmatrix")
ATTR(Kernelunitlength, "kernelunitlength")
ATTR(KeyPoints, "keyPoints")
ATTR(KeySplines, "keySplines")
ATTR(KeyTimes, "keyTimes")
ATTR(Keypoints, "keypoints")
ATTR(Keysplines, "keysplines")
ATTR(Keytimes, "keytimes")
ATTR(Kind, "kind")
ATTR(Label, "label")
ATTR(Lang, "lang")
ATTR(Largeop, "largeop")
ATTR(Leftoverhang, "leftoverhang")
ATTR(Length, "length")
ATTR(LengthAdjust, "lengthAdjust")
ATTR(Lengthadjust, "lengthadjust")
ATTR(Letter_spacing, "letter-spacing")
ATTR(Lighting_color, "lighting-color")
ATTR(LimitingConeAngle, "limitingConeAngle")
ATTR(Limitingconeangle, "limitingconeangle")
ATTR(Linebreak, "linebreak")
ATTR(Linebreakmultchar, "linebreakmultchar")
ATTR(Linebreakstyle, "linebreakstyle")
ATTR(Lineleading, "lineleading")
ATTR(Linethickness, "linethickness")
ATTR(List, "list")
ATTR(Loading, "loading")
ATTR(Location, "location")
ATTR(Longdivstyle, "longdivstyle")
ATTR(Loop, "loop")
ATTR(Low, "low")
ATTR(Lquote, "lquote")
ATTR(Lspace, "lspace")
ATTR(Ltr, "ltr")
ATTR(Macros, "macros")
ATTR(Manifest, "manifest")
ATTR(Marker_end, "marker-end")
ATTR(Marker_mid, "marker-mid")
ATTR(Marker_start, "marker-start")
ATTR(MarkerHeight, "markerHeight")
ATTR(MarkerUnits, "markerUnits")
ATTR(MarkerWidth, "markerWidth")
ATTR(Markerheight, "markerheight")
ATTR(Markerunits, "markerunits")
ATTR(Markerwidth, "markerwidth")
ATTR(Mask, "mask")
ATTR(Mask_type, "mask-type")
ATTR(MaskContentUnits, "maskContentUnits")
ATTR(MaskUnits, "maskUnits")
ATTR(Maskcontentunits, "maskcontentunits")
ATTR(Maskunits, "maskunits")
ATTR(Math, "math")
ATTR(Mathbackground, "mathbackground")
ATTR(Mathcolor, "mathcolor")
ATTR(Mathsize, "mathsize")
ATTR(Mathvariant, "mathvariant")
ATTR(Max, "max")
ATTR(Maxlength, "maxlength")
ATTR(Maxsize, "maxsize")
ATTR(Maxwidth, "maxwidth")
ATTR(Media, "media")
ATTR(Mediummathspace, "mediummathspace")
ATTR(Menclose, "menclose")
ATTR(Method, "method")
ATTR(Min, "min")
ATTR(Minlabelspacing, "minlabelspacing")
ATTR(Minlength, "minlength")
ATTR(Minsize, "minsize")
ATTR(Mode, "mode")
ATTR(Movablelimits, "movablelimits")
ATTR(Msgroup, "msgroup")
ATTR(Mslinethickness, "mslinethickness")
ATTR(Multiple, "multiple")
ATTR(Muted, "muted")
ATTR(Name, "name")
ATTR(Nargs, "nargs")
ATTR(Newline, "newline")
ATTR(Nomodule, "nomodule")
ATTR(Nonce, "nonce")
ATTR(Notation, "notation")
ATTR(Novalidate, "novalidate")
ATTR(NumOctaves, "numOctaves")
ATTR(Numalign, "numalign")
ATTR(Number, "number")
ATTR(Numoctaves, "numoctaves")
ATTR(Occurrence, "occurrence")
ATTR(Offset, "offset")
ATTR(Onabort, "onabort")
ATTR(Onafterprint, "onafterprint")
ATTR(Onauxclick, "onauxclick")
ATTR(Onbeforeprint, "onbeforeprint")
ATTR(Onbeforeunload, "onbeforeunload")
ATTR(Onbegin, "onbegin")
ATTR(Onblur, "onblur")
ATTR(Oncancel, "oncancel")
ATTR(Oncanplay, "oncanplay")
ATTR(Oncanplaythrough, "oncanplaythrough")
ATTR(Onchange, "onchange")
ATTR(Onclick, "onclick")
ATTR(Onclose, "onclose")
ATTR(Oncontextmenu, "oncontextmenu")
ATTR(Oncopy, "oncopy")
ATTR(Oncuechange, "oncuechange")
ATTR(Oncut, "oncut")
ATTR(Ondblclick, "ondblclick")
ATTR(Ondrag, "ondrag")
ATTR(Ondragend, "ondragend")
ATTR(Ondragenter, "ondragenter")
ATTR(Ondragexit, "ondragexit")
ATTR(Ondragleave, "ondragleave")
ATTR(Ondragover, "ondragover")
ATTR(Ondragstart, "ondragstart")
ATTR(Ondrop, "ondrop")
ATTR(Ondurationchange, "ondurationchange")
ATTR(Onemptied, "onemptied")
ATTR(Onend, "onend")
ATTR(Onended, "onended")
ATTR(Onerror, "onerror")
ATTR(Onfocus, "onfocus")
ATTR(Onformdata, "onformdata")
ATTR(Onhashchange, "onhashchange")
ATTR(Oninput, "oninput")
ATTR(Oninvalid, "oninvalid")
ATTR(Onkeydown, "onkeydown")
ATTR(Onkeypress, "onkeypress")
ATTR(Onkeyup, "onkeyup")
ATTR(Onlanguagechange, "onlanguagechange")
ATTR(Onload, "onload")
ATTR(Onloadeddata, "onloadeddata")
ATTR(Onloadedmetadata, "onloadedmetadata")
ATTR(Onloadstart, "onloadstart")
ATTR(Onmessage, "onmessage")
ATTR(Onmessageerror, "onmessageerror")
ATTR(Onmousedown, "onmousedown")
ATTR(Onmouseenter, "onmouseenter")
ATTR(Onmouseleave, "onmouseleave")
ATTR(Onmousemove, "onmousemove")
ATTR(Onmouseout, "onmouseout")
ATTR(Onmouseover, "onmouseover")
ATTR(Onmouseup, "onmouseup")
ATTR(Onoffline, "onoffline")
ATTR(Ononline, "ononline")
ATTR(Onpagehide, "onpagehide")
ATTR(Onpageshow, "onpageshow")
ATTR(Onpaste, "onpaste")
ATTR(Onpause, "onpause")
ATTR(Onplay, "onplay")
ATTR(Onplaying, "onplaying")
ATTR(Onpopstate, "onpopstate")
ATTR(Onprogress, "onprogress")
ATTR(Onratechange, "onratechange")
ATTR(Onrejectionhandled, "onrejectionhandled")
ATTR(Onrepeat, "onrepeat")
ATTR(Onreset, "onreset")
ATTR(Onresize, "onresize")
ATTR(Onscroll, "onscroll")
ATTR(Onsecuritypolicyviolation, "onsecuritypolicyviolation")
ATTR(Onseeked, "onseeked")
ATTR(Onseeking, "onseeking")
ATTR(Onselect, "onselect")
ATTR(Onshow, "onshow")
ATTR(Onslotchange, "onslotchange")
ATTR(Onstalled, "onstalled")
ATTR(Onstorage, "onstorage")
ATTR(Onsubmit, "onsubmit")
ATTR(Onsuspend, "onsuspend")
ATTR(Ontimeupdate, "ontimeupdate")
ATTR(Ontoggle, "ontoggle")
ATTR(Onunhandledrejection, "onunhandledrejection")
ATTR(Onunload, "onunload")
ATTR(Onvolumechange, "onvolumechange")
ATTR(Onwaiting, "onwaiting")
ATTR(Onwheel, "onwheel")
ATTR(Opacity, "opacity")
ATTR(Open, "open")
ATTR(Operator, "operator")
ATTR(Optimum, "optimum")
ATTR(Order, "order")
ATTR(Orient, "orient")
ATTR(Origin, "origin")
ATTR(Other, "other")
ATTR(Overflow, "overflow")
ATTR(Paint_order, "paint-order")
ATTR(Path, "path")
ATTR(PathLength, "pathLength")
ATTR(Pathlength, "pathlength")
ATTR(Pattern, "pattern")
ATTR(PatternContentUnits, "patternContentUnits")
ATTR(PatternTransform, "patternTransform")
ATTR(PatternUnits, "patternUnits")
ATTR(Patterncontentunits, "patterncontentunits")
ATTR(Patterntransform, "patterntransform")
ATTR(Patternunits, "patternunits")
ATTR(Ping, "ping")
ATTR(Placeholder, "placeholder")
ATTR(Playbackorder, "playbackorder")
ATTR(Playsinline, "playsinline")
ATTR(Pointer_events, "pointer-events")
ATTR(Points, "points")
ATTR(PointsAtX, "pointsAtX")
ATTR(PointsAtY, "pointsAtY")
ATTR(PointsAtZ, "pointsAtZ")
ATTR(Pointsatx, "pointsatx")
ATTR(Pointsaty, "pointsaty")
ATTR(Pointsatz, "pointsatz")
ATTR(Position, "position")
ATTR(Poster, "poster")
ATTR(Preload, "preload")
ATTR(PreserveAlpha, "preserveAlpha")
ATTR(PreserveAspectRatio, "preserveAspectRatio")
ATTR(Preservealpha, "preservealpha")
ATTR(Preserveaspectratio, "preserveaspectratio")
ATTR(PrimitiveUnits, "primitiveUnits")
ATTR(Primitiveunits, "primitiveunits")
ATTR(R, "r")
ATTR(Radius, "radius")
ATTR(Readonly, "readonly")
ATTR(RefX, "refX")
ATTR(RefY, "refY")
ATTR(Referrerpolicy, "referrerpolicy")
ATTR(Refx, "refx")
ATTR(Refy, "refy")
ATTR(Rel, "rel")
ATTR(RepeatCount, "repeatCount")
ATTR(RepeatDur, "repeatDur")
ATTR(Repeatcount, "repeatcount")
ATTR(Repeatdur, "repeatdur")
ATTR(Required, "required")
ATTR(RequiredExtensions, "requiredExtensions")
ATTR(RequiredFeatures, "requiredFeatures")
ATTR(Requiredextensions, "requiredextensions")
ATTR(Requiredfeatures, "requiredfeatures")
ATTR(Restart, "restart")
ATTR(Result, "result")
ATTR(Reversed, "reversed")
ATTR(Rightoverhang, "rightoverhang")
ATTR(Role, "role")
ATTR(Rotate, "rotate")
ATTR(Rowalign, "rowalign")
ATTR(Rowlines, "rowlines")
ATTR(Rows, "rows")
ATTR(Rowspacing, "rowspacing")
ATTR(Rowspan, "rowspan")
ATTR(Rquote, "rquote")
ATTR(Rspace, "rspace")
ATTR(Sandbox, "sandbox")
ATTR(Scale, "scale")
ATTR(SchemaLocation, "schemaLocation")
ATTR(Schemalocation, "schemalocation")
ATTR(Scope, "scope")
ATTR(Scriptlevel, "scriptlevel")
ATTR(Scriptminsize, "scriptminsize")
ATTR(Scriptsize, "scriptsize")
ATTR(Scriptsizemultiplier, "scriptsizemultiplier")
ATTR(Seed, "seed")
ATTR(Selected, "selected")
ATTR(Selection, "selection")
ATTR(Separator, "separator")
ATTR(Separators, "separators")
ATTR(Shape, "shape")
ATTR(Shape_rendering, "shape-rendering")
ATTR(Shift, "shift")
ATTR(Show, "show")
ATTR(Side, "side")
ATTR(Size, "size")
ATTR(Sizes, "sizes")
ATTR(Slope, "slope")
ATTR(Slot, "slot")
ATTR(Space, "space")
ATTR(Spacing, "spacing")
ATTR(Span, "span")
ATTR(SpecularConstant, "specularConstant")
ATTR(SpecularExponent, "specularExponent")
ATTR(Specularconstant, "specularconstant")
ATTR(Specularexponent, "specularexponent")
ATTR(Spellcheck, "spellcheck")
ATTR(SpreadMethod, "spreadMethod")
ATTR(Spreadmethod, "spreadmethod")
ATTR(Src, "src")
ATTR(Srcdoc, "srcdoc")
ATTR(Srclang, "srclang")
ATTR(Srcset, "srcset")
ATTR(Stackalign, "stackalign")
ATTR(Start, "start")
ATTR(StartOffset, "startOffset")
ATTR(Startoffset, "startoffset")
ATTR(StdDeviation, "stdDeviation")
ATTR(Stddeviation, "stddeviation")
ATTR(Step, "step")
ATTR(StitchTiles, "stitchTiles")
ATTR(Stitchtiles, "stitchtiles")
ATTR(Stop_color, "stop-color")
ATTR(Stop_opacity, "stop-opacity")
ATTR(Stretchy, "stretchy")
ATTR(Stroke, "stroke")
ATTR(Stroke_dasharray, "stroke-dasharray")
ATTR(Stroke_dashoffset, "stroke-dashoffset")
ATTR(Stroke_linecap, "stroke-linecap")
ATTR(Stroke_linejoin, "stroke-linejoin")
ATTR(Stroke_miterlimit, "stroke-miterlimit")
ATTR(Stroke_opacity, "stroke-opacity")
ATTR(Stroke_width, "stroke-width")
ATTR(Style, "style")
ATTR(Subscriptshift, "subscriptshift")
ATTR(Superscriptshift, "superscriptshift")
ATTR(SurfaceScale, "surfaceScale")
ATTR(Surfacescale, "surfacescale")
ATTR(Symmetric, "symmetric")
ATTR(SystemLanguage, "systemLanguage")
ATTR(Systemlanguage, "systemlanguage")
ATTR(Tabindex, "tabindex")
ATTR(TableValues, "tableValues")
ATTR(Tablevalues, "tablevalues")
ATTR(Target, "target")
ATTR(TargetX, "targetX")
ATTR(TargetY, "targetY")
ATTR(Targetx, "targetx")
ATTR(Targety, "targety")
ATTR(Text_anchor, "text-anchor")
ATTR(Text_decoration, "text-decoration")
ATTR(Text_rendering, "text-rendering")
ATTR(TextLength, "textLength")
ATTR(Textlength, "textlength")
ATTR(Thickmathspace, "thickmathspace")
ATTR(Thinmathspace, "thinmathspace")
ATTR(Timelinebegin, "timelinebegin")
ATTR(Title, "title")
ATTR(To, "to")
ATTR(Transform, "transform")
ATTR(Transform_origin, "transform-origin")
ATTR(Translate, "translate")
ATTR(Type, "type")
ATTR(Unicode_bidi, "unicode-bidi")
ATTR(Usemap, "usemap")
ATTR(Valign, "valign")
ATTR(Value, "value")
ATTR(Values, "values")
ATTR(Vector_effect, "vector-effect")
ATTR(Verythickmathspace, "verythickmathspace")
ATTR(Verythinmathspace, "verythinmathspace")
ATTR(Veryverythickmathspace, "veryverythickmathspace")
ATTR(Veryverythinmathspace, "veryverythinmathspace")
ATTR(ViewBox, "viewBox")
ATTR(ViewTarget, "viewTarget")
ATTR(Viewbox, "viewbox")
ATTR(Viewtarget, "viewtarget")
ATTR(Visibility, "visibility")
ATTR(Voffset, "voffset")
ATTR(Width, "width")
ATTR(Word_spacing, "word-spacing")
ATTR(Wrap, "wrap")
ATTR(Writing_mode, "writing-mode")
ATTR(X, "x")
ATTR(X1, "x1")
ATTR(X2, "x2")
ATTR(XChannelSelector, "xChannelSelector")
ATTR(Xchannelselector, "xchannelselector")
ATTR(Xlink, "xlink")
ATTR(Xlink_actuate, "xlink:actuate")
ATTR(Xlink_arcrole, "xlink:arcrole")
ATTR(Xlink_href, "xlink:href")
ATTR(Xlink_role, "xlink:role")
ATTR(Xlink_show, "xlink:show")
ATTR(Xlink_title, "xlink:title")
ATTR(Xlink_type, "xlink:type")
ATTR(Xml, "xml")
ATTR(Xml_lang, "xml:lang")
ATTR(Xml_space, "xml:space")
ATTR(Xmlns, "xmlns")
ATTR(Xmlns_xlink, "xmlns:xlink")
ATTR(Xref, "xref")
ATTR(Xsi_schemaLocation, "xsi:schemaLocation")
ATTR(Xsi_schemalocation, "xsi:schemalocation")
ATTR(Y, "y")
ATTR(Y1, "y1")
ATTR(Y2, "y2")
ATTR(YChannelSelector, "yChannelSelector")
ATTR(Ychannelselector, "ychannelselector")
ATTR(Z, "z")
ATTR(ZoomAndPan, "zoomAndPan")
ATTR(Zoomandpan, "zoomandpan")
