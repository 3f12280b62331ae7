"""What the file format requires inside an element is never left out.

The abstract interpretation of all XML writers (see C01) yields every element
with the siblings that can precede it, and every closing tag with the child that
can be the last one. For each parent these form a graph from the opening to the
closing tag. A child is always written if, with it removed, the closing tag
cannot be reached any more. In the same way an attribute is always written if
its minimal number of occurrences over all paths is one. Namespace prefixes are
followed down the parent-child relation: a prefix must be declared on the element
or on every chain of ancestors."""
RULE = "no path from the opening to the closing tag avoids a required child; a required attribute is on every path; every prefix used is declared on all ancestor chains"
import schema_tables as S

# Children the schemas require (minOccurs >= 1); a|b: one of them. A key "p>e"
# is <e> inside <p> only.
CHILDREN = {
    "HeadingPairs": "vt:vector", "TitlesOfParts": "vt:vector",
    "cp:coreProperties": "dcterms:created dcterms:modified",
    "worksheet": "sheetData sheetViews sheetFormatPr pageMargins dimension", "chartsheet": "sheetViews pageMargins", "sheetViews": "sheetView",
    "workbook": "sheets bookViews workbookPr", "bookViews": "workbookView",
    "styleSheet": "fonts fills borders cellStyleXfs cellXfs cellStyles",
    "cellStyleXfs": "xf", "cellStyles": "cellStyle", "fills": "fill", "fill": "patternFill|gradientFill",
    "border": "left right top bottom",
    "r": "t", "comment": "text", "comments": "commentList", "table": "tableColumns",
    "cols": "col", "colorScale": "cfvo color", "dataBar": "cfvo color",
    "dataValidation": "formula1", "a": "bagId", "metadata": "metadataTypes", "cellMetadata": "bk", "rv": "v", "s": "k", "rvTypesInfo": "global", "global": "keyFlags",
    "rPr": "rFont sz",
    "x14:conditionalFormatting": "xm:sqref", "x14:sparklineGroup": "x14:sparklines", "x14:sparkline": "xm:sqref xm:f", "x14:dataBar": "x14:cfvo",
    "xdr:twoCellAnchor": "xdr:from xdr:to xdr:clientData", "xdr:absoluteAnchor": "xdr:pos xdr:ext xdr:graphicFrame|xdr:pic|xdr:sp xdr:clientData",
    "xdr:from": "xdr:col xdr:colOff xdr:row xdr:rowOff", "xdr:to": "xdr:col xdr:colOff xdr:row xdr:rowOff",
    "xdr:sp": "xdr:nvSpPr xdr:spPr", "xdr:nvSpPr": "xdr:cNvPr xdr:cNvSpPr",
    "xdr:pic": "xdr:nvPicPr xdr:blipFill xdr:spPr", "xdr:nvPicPr": "xdr:cNvPr xdr:cNvPicPr",
    "xdr:graphicFrame": "xdr:nvGraphicFramePr xdr:xfrm a:graphic", "xdr:nvGraphicFramePr": "xdr:cNvPr xdr:cNvGraphicFramePr",
    "xdr:xfrm": "a:off a:ext", "a:xfrm": "a:off a:ext", "xdr:blipFill": "a:blip", "a:graphic": "a:graphicData", "a:graphicData": "c:chart",
    "xdr:style": "a:lnRef a:fillRef a:effectRef a:fontRef", "xdr:txBody": "a:bodyPr", "xdr:spPr": "a:prstGeom|a:custGeom a:xfrm",
    "c:rich": "a:bodyPr a:p", "c:txPr": "a:bodyPr a:p", "a:r": "a:t", "a:gradFill": "a:gsLst",
    "a:theme": "a:themeElements", "a:themeElements": "a:clrScheme a:fontScheme a:fmtScheme",
    "a:clrScheme": "a:dk1 a:lt1 a:dk2 a:lt2 a:accent1 a:accent2 a:accent3 a:accent4 a:accent5 a:accent6 a:hlink a:folHlink",
    "a:fontScheme": "a:majorFont a:minorFont", "a:majorFont": "a:latin a:ea a:cs", "a:minorFont": "a:latin a:ea a:cs",
    "a:fmtScheme": "a:fillStyleLst a:lnStyleLst a:effectStyleLst a:bgFillStyleLst", "a:scene3d": "a:camera a:lightRig",
    "c:chartSpace": "c:chart", "c:chartSpace>c:chart": "c:plotArea",
    "c:areaChart": "c:axId", "c:barChart": "c:barDir c:axId", "c:lineChart": "c:grouping c:axId", "c:stockChart": "c:axId",
    "c:radarChart": "c:radarStyle c:axId", "c:scatterChart": "c:scatterStyle c:axId",
    "c:ser": "c:idx c:order", "c:dPt": "c:idx", "c:dLbl": "c:idx", "c:numRef": "c:f", "c:strRef": "c:f",
    "c:numCache": "c:ptCount", "c:strCache": "c:ptCount", "c:pt": "c:v",
    "c:cat": "c:numRef|c:strRef|c:multiLvlStrRef|c:numLit|c:strLit", "c:xVal": "c:numRef|c:strRef|c:multiLvlStrRef|c:numLit|c:strLit",
    "c:ser>c:val": "c:numRef|c:numLit", "c:yVal": "c:numRef|c:numLit", "c:plus": "c:numRef|c:numLit", "c:minus": "c:numRef|c:numLit",
    "c:tx": "c:strRef|c:rich|c:v", "c:trendline": "c:trendlineType", "c:errBars": "c:errBarType c:errValType",
    "c:catAx": "c:axId c:scaling c:axPos c:crossAx", "c:valAx": "c:axId c:scaling c:axPos c:crossAx", "c:dateAx": "c:axId c:scaling c:axPos c:crossAx",
    "c:dispUnits": "c:builtInUnit|c:custUnit", "c:legend": "c:legendPos", "c:legendEntry": "c:idx", "c:scaling": "c:orientation", "c:upDownBars": "c:upBars c:downBars",
    "c14:invertSolidFillFmt": "c14:spPr", "c16r3:dataDisplayOptions16": "c16r3:dispNaAsBlank",
    "o:shapelayout": "o:idmap", "xml": "o:shapelayout", "x:ClientData": "x:Anchor", "v:formulas": "v:f", "v:textbox": "div",
    **{t: "a:srgbClr|a:sysClr|a:schemeClr|a:scrgbClr|a:hslClr|a:prstClr" for t in "a:dk1 a:lt1 a:dk2 a:lt2 a:accent1 a:accent2 a:accent3 a:accent4 a:accent5 a:accent6 a:hlink a:folHlink a:outerShdw a:lnRef a:fillRef a:effectRef a:fontRef".split()},
}
# An element that may be written without content although it has required content
# when it has some: the element is then a reference, or its content is optional.
EMPTY_OK = {"dataValidation", "xdr:cNvGraphicFramePr"}

VAL = "c:auto c:autoTitleDeleted c:axId c:axPos c:backward c:barDir c:builtInUnit c:crossAx c:crossBetween c:crosses c:crossesAt c:dLblPos c:delete c:dispBlanksAs c:dispEq c:dispRSqr c:errBarType c:errDir c:errValType c:firstSliceAng c:forward c:gapWidth c:grouping c:h c:holeSize c:idx c:intercept c:invertIfNegative c:lang c:layoutTarget c:lblAlgn c:lblOffset c:legendPos c:logBase c:majorTickMark c:majorTimeUnit c:majorUnit c:max c:min c:minorTickMark c:minorTimeUnit c:minorUnit c:noEndCap c:order c:orientation c:overlap c:overlay c:period c:plotVisOnly c:ptCount c:radarStyle c:scatterStyle c:showCatName c:showHorzBorder c:showKeys c:showLeaderLines c:showLegendKey c:showOutline c:showPercent c:showSerName c:showVal c:showVertBorder c:size c:smooth c:style c:symbol c:tickLblPos c:tickLblSkip c:tickMarkSkip c:trendlineType c:varyColors c:w c:x c:xMode c:y c:yMode c15:showLeaderLines c16r3:dispNaAsBlank c:errBars>c:val c:lineChart>c:marker a:alpha a:lumMod a:lumOff a:satMod a:shade a:tint a:prstDash a:schemeClr a:srgbClr a:sysClr sz family charset rFont name scheme vertAlign filter customFilter"
ATTRS = {
    "Default": "Extension ContentType", "Override": "PartName ContentType", "Relationship": "Id Type Target",
    "property": "fmtid pid name", "vt:vector": "size baseType",
    "sheetView": "workbookViewId", "col": "min max width", "row": "r", "c": "r", "dimension": "ref", "mergeCell": "ref", "hyperlink": "ref",
    "brk": "id", "filterColumn": "colId", "autoFilter": "ref", "cfRule": "type priority", "conditionalFormatting": "sqref", "dataValidation": "sqref",
    "ignoredError": "sqref", "tablePart": "r:id", "drawing": "r:id", "legacyDrawing": "r:id", "legacyDrawingHF": "r:id", "picture": "r:id",
    "protectedRange": "name sqref", "worksheet>pageMargins": "left right top bottom header footer", "chartsheet>pageMargins": "left right top bottom header footer",
    "c:pageMargins": "l r t b header footer", "sheetFormatPr": "defaultRowHeight",
    "sheet": "name sheetId r:id", "definedName": "name", "numFmt": "numFmtId formatCode", "cellStyle": "name xfId", "cellStyles>cellStyle": "builtinId",
    "xf": "numFmtId fontId fillId borderId", "cellXfs>xf": "xfId",
    "comment": "ref authorId", "table": "id displayName ref name", "tableColumn": "id name", "metadataType": "name minSupportedVersion", "futureMetadata": "name",
    "rc": "t v", "ext": "uri", "c:ext": "uri", "a:extLst>a:ext": "uri", "xdr:xfrm>a:ext": "cx cy", "a:xfrm>a:ext": "cx cy", "a:off": "x y", "xdr:pos": "x y", "xdr:ext": "cx cy",
    "xdr:cNvPr": "id name", "a:blip": "r:embed", "a:graphicData": "uri", "a:prstGeom": "prst", "a:gs": "pos", "a:lnRef": "idx", "a:fillRef": "idx", "a:effectRef": "idx", "a:fontRef": "idx",
    "a:pattFill": "prst", "a:font": "script typeface", "a:hlinkClick": "r:id", "a:fld": "id type", "a:sysClr": "lastClr", "a:camera": "prst", "a:lightRig": "rig dir",
    "a:majorFont>a:latin": "typeface", "a:minorFont>a:latin": "typeface", "a:ea": "typeface", "a:clrScheme": "name", "a:fontScheme": "name", "a:theme": "name",
    "a:graphicData>c:chart": "r:id", "c:pt": "idx", "c:numFmt": "formatCode",
    "v:shape": "id style type", "v:shapetype": "id o:spt path coordsize", "v:f": "eqn", "o:idmap": "data", "x:ClientData": "ObjectType", "v:imagedata": "o:relid",
    "x14:cfRule": "type id", "x14:cfvo": "type", "x14:cfIcon": "iconSet iconId", "x14:axisColor": "rgb", "x14:borderColor": "rgb", "x14:negativeFillColor": "rgb", "x14:negativeBorderColor": "rgb",
    "flag": "name value", "key": "name", "rel": "r:id", "rv": "s", "s": "t", "k": "n t", "bag": "type", "xfpb:DXFComplement": "i", "xfpb:xfComplement": "i", "xlrd:rvb": "i", "xda:dynamicArrayProperties": "fDynamic fCollapsed",
    "dcterms:created": "xsi:type", "dcterms:modified": "xsi:type", "mergeCells": "count", "fileSharing": "readOnlyRecommended",
}
for _t in VAL.split(): ATTRS[_t] = (ATTRS.get(_t, "") + " val").strip()

# Writers of a fragment that another writer puts inside this parent.
TOPS = {"row": "sheetData", "cfRule": "conditionalFormatting", "x14:cfRule": "x14:conditionalFormatting", "r": "si",
        **{"c:%sChart" % x: "c:plotArea" for x in "area bar doughnut line pie radar scatter stock".split()}}
# Prefixes that need no declaration.
PREDEF = {"xml", "xmlns"}
# Declared under the condition under which they are used (an extension element
# names its own namespace; a flag of the worksheet or of the metadata part selects
# both): for these, one of the ancestors must be able to declare the prefix.
CONDITIONAL = set("x14 c14 c15 c16r3 xfpb xda xlrd x14ac mc".split())

def run(c, r):
    em = c.emission(); p = c.prog()
    G = {}; empty = {}; node = {}
    def where(site):
        f = p.fns.get(site[0])
        return "%s:%s %s" % (f.file if f else "?", site[1], site[0])
    A = {}
    for w, ch, prev, tag, attrs, kind, data, site in em.events:
        pa = ch[-1]; gp = ch[-2] if len(ch) > 1 else None
        if not isinstance(tag, str) or not isinstance(pa, str): continue
        if pa != "#top":
            for q in prev: G.setdefault((gp, pa), {}).setdefault((q, tag), site)
        if kind != "open": empty.setdefault((pa, tag), []).append((kind, site))
        A.setdefault((pa, tag), []).append((attrs, site))
        node.setdefault((pa, tag), set())
        if isinstance(gp, str): node[(pa, tag)].add((gp, pa))
    for w, ch, prev, tag, attrs, kind, data, site in em.closes:
        pa = ch[-1]; gp = ch[-2] if len(ch) > 1 else None
        if not isinstance(pa, str): continue
        for q in prev: G.setdefault((gp, pa), {}).setdefault((q, "/"), site)
    def last_without(g, R):
        """the closing edge reached without any of R"""
        seen = {None}; wk = [None]
        while wk:
            x = wk.pop()
            for (a, b), s in g.items():
                if a != x or b in R: continue
                if b == "/": return a, s
                if b not in seen: seen.add(b); wk.append(b)
    def expand(t):
        """(parent or None, tag)"""
        return tuple(t.split(">")) if ">" in t else (None, t)

    # 1. children
    bad = {}; seen = set(); groups = {"CHILDREN": 0, "ATTRS": 0}
    for key in sorted(CHILDREN):
        pa0, t = expand(key); items = CHILDREN[key].split()
        gs = [(k, g) for k, g in sorted(G.items(), key=str) if k[1] == t and (pa0 is None or k[0] == pa0)]
        for it in items:
            R = set(it.split("|"))
            for (gp, pa), g in gs:
                if not any(b == "/" for a, b in g): continue
                groups["CHILDREN"] += 1; seen.add((key, it))
                x = last_without(g, R)
                if x is None: r.ok()
                else: bad.setdefault((t, it), ("<%s> can be closed%s without the required <%s>" % (t, " after <%s>" % x[0] if x[0] else "", it), where(x[1])))
        if t in EMPTY_OK: continue
        for (pa, tag), L in sorted(empty.items()):
            if tag != t or (pa0 is not None and pa != pa0): continue
            if ">" not in key and any(k.endswith(">" + t) and k != key for k in CHILDREN): continue
            for kind, site in L:
                bad.setdefault((t, "empty"), ("<%s> can be written empty: it requires <%s>" % (t, items[0]), where(site)))
    for k, (m, wh) in sorted(bad.items()): r.bad("child:%s:%s" % k, m, wh)
    r.floor("required children proved present", len(seen), 200)

    # 2. attributes
    bad = {}; pairs = set()
    for key in sorted(ATTRS):
        pa0, t = expand(key)
        for (pa, tag), L in A.items():
            if tag != t or (pa0 is not None and pa != pa0): continue
            for attrs, site in L:
                if attrs[0] != "list": continue
                have = {n: mi for n, mi, ma, vs in attrs[1]}
                for n in ATTRS[key].split():
                    pairs.add((key, n))
                    if have.get(n, 0) >= 1: r.ok()
                    else: bad.setdefault((t, n), ("<%s> can be written without the required attribute %s" % (t, n), where(site)))
    for k, (m, wh) in sorted(bad.items()): r.bad("attr:%s:%s" % k, m, wh)
    r.floor("required attributes proved present", len(pairs), 200)

    # 3. namespaces
    def xmlns(attrs):
        return {n[6:] for n, mi, ma, vs in attrs[1] if isinstance(n, str) and n.startswith("xmlns:")} if attrs[0] == "list" else set()
    def always(attrs):
        return {n[6:] for n, mi, ma, vs in attrs[1] if isinstance(n, str) and n.startswith("xmlns:") and mi >= 1} if attrs[0] == "list" else set()
    MUST = {k: set.intersection(*[always(a) for a, s in L]) for k, L in A.items()}
    MAY = {k: set().union(*[xmlns(a) for a, s in L]) for k, L in A.items()}
    ALL = set().union(*MAY.values())
    def solve(own, start, join):
        D = {k: set(start) for k in node}
        ch = True
        while ch:
            ch = False
            for k in node:
                pa, tag = k
                if pa == "#doc": up = []
                elif pa == "#top": up = [D[q] for q in D if q[1] == TOPS.get(tag)]
                else: up = [D[q] for q in node[k] if q in D] or [D[q] for q in D if q[1] == pa]
                n = own[k] | (join(*[set(x) for x in up]) if up else set())
                if n != D[k]: D[k] = n; ch = True
        return D
    D = solve(MUST, ALL, set.intersection); Y = solve(MAY, (), set.union)
    used = set(); bad = {}
    for k, L in sorted(A.items()):
        for attrs, site in L:
            names = {k[1]} | ({n for n, mi, ma, vs in attrs[1] if isinstance(n, str)} if attrs[0] == "list" else set())
            for n in names:
                if ":" not in n: continue
                x = n.split(":")[0]
                if x in PREDEF: continue
                used.add((k, x))
                if x in D[k] or x in CONDITIONAL and x in Y[k]: r.ok()
                else: bad.setdefault((k[1], x), ("the prefix %s of %s is not declared on <%s> or all its ancestors" % (x, n, k[1]), where(site)))
            if k[1] in ("ext", "c:ext") and attrs[0] == "list":
                if always(attrs) or Y[k] & {"xda", "xlrd"}: r.ok()
                else: bad.setdefault((k[1], "none"), ("<%s> can be written without declaring the namespace of its content" % k[1], where(site)))
    for k, (m, wh) in sorted(bad.items()): r.bad("ns:%s:%s" % k, m, wh)
    r.floor("uses of namespace prefixes", len(used), 400)
    r.count("closing tags", len(em.closes))

