"""Content models and attributes of the elements rust_xlsxwriter may write.

From ECMA-376 (SpreadsheetML, DrawingML, chart, spreadsheet drawing, OPC), the
[MS-XLSX] extensions and the VML that Excel writes. `name*` may repeat, `(a|b)`
is a choice at one position, `{a b c}` children in any order.
"""
import re

FILL = "(a:noFill|a:solidFill|a:gradFill|a:blipFill|a:pattFill|a:grpFill)"
EFFECT = "(a:effectLst|a:effectDag)"
RPR = "a:ln %s %s a:highlight (a:uLnTx|a:uLn) (a:uFillTx|a:uFill) a:latin a:ea a:cs a:sym a:hlinkClick a:hlinkMouseOver a:rtl a:extLst" % (FILL, EFFECT)
COLORMOD = "{a:tint* a:shade* a:alpha* a:alphaMod* a:lumMod* a:lumOff* a:satMod* a:satOff* a:hueMod* a:gamma* a:invGamma*}"
ACOLOR = "(a:scrgbClr|a:srgbClr|a:hslClr|a:sysClr|a:schemeClr|a:prstClr)"
SPPR = "a:xfrm (a:custGeom|a:prstGeom) %s a:ln %s a:scene3d a:sp3d a:extLst" % (FILL, EFFECT)
TXBODY = "a:bodyPr a:lstStyle a:p*"
FONT = "{b i strike condense extend outline shadow u vertAlign sz color name rFont family charset scheme}"
AX = "c:axId c:scaling c:delete c:axPos c:majorGridlines c:minorGridlines c:title c:numFmt c:majorTickMark c:minorTickMark c:tickLblPos c:spPr c:txPr c:crossAx (c:crosses|c:crossesAt) "

CHILDREN = {
    # documents
    "#doc": "(FeaturePropertyBags|Properties|Relationships|Types|a:theme|c:chartSpace|chartsheet|comments|cp:coreProperties|metadata|richValueRels|rvData|rvStructures|rvTypesInfo|sst|styleSheet|table|workbook|worksheet|xdr:wsDr)",
    "Relationships": "Relationship*",
    "Types": "{Default* Override*}",
    "Properties": "{Template Manager Company Pages Words Characters PresentationFormat Lines Paragraphs Slides Notes TotalTime HiddenSlides MMClips ScaleCrop HeadingPairs TitlesOfParts LinksUpToDate CharactersWithSpaces SharedDoc HyperlinkBase HLinks HyperlinksChanged DigSig Application AppVersion DocSecurity property*}",
    "cp:coreProperties": "{cp:category cp:contentStatus dcterms:created dc:creator dc:description dc:identifier cp:keywords dc:language cp:lastModifiedBy cp:lastPrinted dcterms:modified cp:revision dc:subject dc:title cp:version}",
    "HeadingPairs": "vt:vector", "TitlesOfParts": "vt:vector",
    "vt:vector": "{vt:variant* vt:lpstr*}", "vt:variant": "(vt:i4|vt:lpstr)",
    "property": "(vt:bool|vt:filetime|vt:i4|vt:lpwstr|vt:r8)",
    # worksheet
    "worksheet": "sheetPr dimension sheetViews sheetFormatPr cols* sheetData sheetCalcPr sheetProtection protectedRanges scenarios autoFilter sortState dataConsolidate customSheetViews mergeCells phoneticPr conditionalFormatting* dataValidations hyperlinks printOptions pageMargins pageSetup headerFooter rowBreaks colBreaks customProperties cellWatches ignoredErrors smartTags drawing legacyDrawing legacyDrawingHF drawingHF picture oleObjects controls webPublishItems tableParts extLst",
    "chartsheet": "sheetPr sheetViews sheetProtection customSheetViews pageMargins pageSetup headerFooter drawing legacyDrawing legacyDrawingHF drawingHF picture webPublishItems extLst",
    "sheetPr": "tabColor outlinePr pageSetUpPr",
    "sheetViews": "sheetView* extLst", "sheetView": "pane selection* pivotSelection extLst",
    "cols": "col*", "sheetData": "row*", "row": "c* extLst", "c": "f v is extLst", "is": "t r* rPh phoneticPr",
    "protectedRanges": "protectedRange*",
    "autoFilter": "filterColumn* sortState extLst", "filterColumn": "(filters|top10|customFilters|dynamicFilter|colorFilter|iconFilter)",
    "filters": "filter* dateGroupItem*", "customFilters": "customFilter*",
    "mergeCells": "mergeCell*", "conditionalFormatting": "cfRule* extLst",
    "cfRule": "formula* colorScale dataBar iconSet extLst", "colorScale": "cfvo* color*", "dataBar": "cfvo* color", "iconSet": "cfvo*",
    "dataValidations": "dataValidation*", "dataValidation": "formula1 formula2",
    "hyperlinks": "hyperlink*", "headerFooter": "oddHeader oddFooter evenHeader evenFooter firstHeader firstFooter",
    "rowBreaks": "brk*", "colBreaks": "brk*", "ignoredErrors": "ignoredError* extLst", "tableParts": "tablePart*",
    "extLst": "ext*",
    "ext": "(x14:conditionalFormattings|x14:id|x14:sparklineGroups|xda:dynamicArrayProperties|xfpb:DXFComplement|xfpb:xfComplement|xlrd:rvb)",
    "x14:conditionalFormattings": "x14:conditionalFormatting*", "x14:conditionalFormatting": "x14:cfRule* xm:sqref extLst",
    "x14:cfRule": "xm:f* x14:colorScale x14:dataBar x14:iconSet x14:dxf extLst",
    "x14:dataBar": "x14:cfvo* x14:fillColor x14:borderColor x14:negativeFillColor x14:negativeBorderColor x14:axisColor",
    "x14:iconSet": "x14:cfvo* x14:cfIcon*", "x14:cfvo": "xm:f extLst",
    "x14:sparklineGroups": "x14:sparklineGroup*",
    "x14:sparklineGroup": "x14:colorSeries x14:colorNegative x14:colorAxis x14:colorMarkers x14:colorFirst x14:colorLast x14:colorHigh x14:colorLow xm:f x14:sparklines",
    "x14:sparklines": "x14:sparkline*", "x14:sparkline": "xm:f xm:sqref",
    # workbook
    "workbook": "fileVersion fileSharing workbookPr workbookProtection bookViews sheets functionGroups externalReferences definedNames calcPr oleSize customWorkbookViews pivotCaches extLst",
    "bookViews": "workbookView*", "sheets": "sheet*", "definedNames": "definedName*",
    # styles
    "styleSheet": "numFmts fonts fills borders cellStyleXfs cellXfs cellStyles dxfs tableStyles colors extLst",
    "numFmts": "numFmt*", "fonts": "font*", "fills": "fill*", "borders": "border*", "cellStyleXfs": "xf*", "cellXfs": "xf*",
    "cellStyles": "cellStyle*", "dxfs": "dxf*",
    "font": FONT, "rPr": FONT, "fill": "(patternFill|gradientFill)", "patternFill": "fgColor bgColor",
    "border": "start end left right top bottom diagonal vertical horizontal",
    "left": "color", "right": "color", "top": "color", "bottom": "color", "diagonal": "color",
    "xf": "alignment protection extLst", "dxf": "font numFmt fill alignment border protection extLst",
    # shared strings, comments, tables
    "sst": "si* extLst", "si": "t r* rPh phoneticPr", "r": "rPr t",
    "comments": "authors commentList extLst", "authors": "author*", "commentList": "comment*", "comment": "text commentPr", "text": "t r*",
    "table": "autoFilter sortState tableColumns tableStyleInfo extLst", "tableColumns": "tableColumn*",
    "tableColumn": "calculatedColumnFormula totalsRowFormula xmlColumnPr extLst",
    # metadata, rich values, property bags
    "metadata": "metadataTypes metadataStrings mdxMetadata futureMetadata* cellMetadata valueMetadata extLst",
    "metadataTypes": "metadataType*", "futureMetadata": "bk* extLst", "cellMetadata": "bk*", "valueMetadata": "bk*", "bk": "{rc* extLst}",
    "richValueRels": "rel*", "rvData": "rv*", "rv": "v* fb", "rvStructures": "s*", "s": "k*",
    "rvTypesInfo": "global types extLst", "global": "keyFlags", "keyFlags": "key*", "key": "flag*",
    "FeaturePropertyBags": "bagExt* bag*", "bag": "{a* bagId*}", "a": "bagId*",
    # spreadsheet drawing
    "xdr:wsDr": "{xdr:twoCellAnchor* xdr:oneCellAnchor* xdr:absoluteAnchor*}",
    "xdr:twoCellAnchor": "xdr:from xdr:to (xdr:sp|xdr:grpSp|xdr:graphicFrame|xdr:cxnSp|xdr:pic) xdr:clientData",
    "xdr:absoluteAnchor": "xdr:pos xdr:ext (xdr:sp|xdr:grpSp|xdr:graphicFrame|xdr:cxnSp|xdr:pic) xdr:clientData",
    "xdr:from": "xdr:col xdr:colOff xdr:row xdr:rowOff", "xdr:to": "xdr:col xdr:colOff xdr:row xdr:rowOff",
    "xdr:sp": "xdr:nvSpPr xdr:spPr xdr:style xdr:txBody", "xdr:nvSpPr": "xdr:cNvPr xdr:cNvSpPr",
    "xdr:pic": "xdr:nvPicPr xdr:blipFill xdr:spPr xdr:style", "xdr:nvPicPr": "xdr:cNvPr xdr:cNvPicPr",
    "xdr:cNvPicPr": "a:picLocks", "xdr:cNvPr": "a:hlinkClick a:hlinkHover a:extLst",
    "xdr:graphicFrame": "xdr:nvGraphicFramePr xdr:xfrm a:graphic", "xdr:nvGraphicFramePr": "xdr:cNvPr xdr:cNvGraphicFramePr",
    "xdr:cNvGraphicFramePr": "a:graphicFrameLocks", "xdr:xfrm": "a:off a:ext", "a:xfrm": "a:off a:ext",
    "xdr:blipFill": "a:blip a:srcRect (a:tile|a:stretch)", "a:stretch": "a:fillRect",
    "xdr:spPr": SPPR, "xdr:style": "a:lnRef a:fillRef a:effectRef a:fontRef", "xdr:txBody": TXBODY,
    "a:graphic": "a:graphicData", "a:graphicData": "c:chart", "a:prstGeom": "a:avLst",
    "a:extLst": "a:ext*", "a:ext": "(a16:creationId|adec:decorative)",
    **{t: ACOLOR for t in "a:dk1 a:lt1 a:dk2 a:lt2 a:accent1 a:accent2 a:accent3 a:accent4 a:accent5 a:accent6 a:hlink a:folHlink".split()},
    "a:lnRef": ACOLOR, "a:fillRef": ACOLOR, "a:effectRef": ACOLOR, "a:fontRef": ACOLOR,
    # DrawingML text and fills
    "a:p": "a:pPr {a:r* a:br* a:fld*} a:endParaRPr", "a:r": "a:rPr a:t", "a:fld": "a:rPr a:pPr a:t",
    "a:pPr": "a:lnSpc a:spcBef a:spcAft a:tabLst a:defRPr a:extLst", "a:rPr": RPR, "a:defRPr": RPR, "a:endParaRPr": RPR,
    "a:ln": "(a:noFill|a:solidFill|a:gradFill|a:pattFill) (a:prstDash|a:custDash) (a:round|a:bevel|a:miter) a:headEnd a:tailEnd",
    "a:solidFill": ACOLOR, "a:gradFill": "a:gsLst (a:lin|a:path) a:tileRect", "a:pattFill": "a:fgClr a:bgClr",
    "a:fgClr": ACOLOR, "a:bgClr": ACOLOR, "a:gsLst": "a:gs*", "a:gs": ACOLOR, "a:path": "a:fillToRect",
    "a:schemeClr": COLORMOD, "a:srgbClr": COLORMOD, "a:sysClr": COLORMOD,
    # theme
    "a:theme": "a:themeElements a:objectDefaults a:extraClrSchemeLst a:custClrLst a:extLst",
    "a:themeElements": "a:clrScheme a:fontScheme a:fmtScheme",
    "a:clrScheme": "a:dk1 a:lt1 a:dk2 a:lt2 a:accent1 a:accent2 a:accent3 a:accent4 a:accent5 a:accent6 a:hlink a:folHlink",
    "a:fontScheme": "a:majorFont a:minorFont", "a:majorFont": "a:latin a:ea a:cs a:font*", "a:minorFont": "a:latin a:ea a:cs a:font*",
    "a:fmtScheme": "a:fillStyleLst a:lnStyleLst a:effectStyleLst a:bgFillStyleLst",
    "a:fillStyleLst": "{a:solidFill* a:gradFill*}", "a:bgFillStyleLst": "{a:solidFill* a:gradFill*}", "a:lnStyleLst": "a:ln*",
    "a:effectStyleLst": "a:effectStyle*", "a:effectStyle": "a:effectLst a:scene3d a:sp3d", "a:effectLst": "a:outerShdw*",
    "a:outerShdw": ACOLOR, "a:scene3d": "a:camera a:lightRig", "a:camera": "a:rot", "a:lightRig": "a:rot", "a:sp3d": "a:bevelT",
    # charts
    "c:chartSpace": "c:date1904 c:lang c:roundedCorners c:style c:clrMapOvr c:pivotSource c:protection c:chart c:spPr c:txPr c:externalData c:printSettings c:userShapes c:extLst",
    "c:chart": "c:title c:autoTitleDeleted c:pivotFmts c:view3D c:floor c:sideWall c:backWall c:plotArea c:legend c:plotVisOnly c:dispBlanksAs c:extLst",
    "c:plotArea": "c:layout {c:areaChart* c:barChart* c:lineChart* c:pieChart* c:doughnutChart* c:radarChart* c:scatterChart* c:stockChart* c:bubbleChart*} {c:catAx* c:valAx* c:dateAx* c:serAx*} c:dTable c:spPr c:extLst",
    "c:areaChart": "c:grouping c:varyColors c:ser* c:dLbls c:dropLines c:axId*",
    "c:barChart": "c:barDir c:grouping c:varyColors c:ser* c:dLbls c:gapWidth c:overlap c:serLines c:axId*",
    "c:lineChart": "c:grouping c:varyColors c:ser* c:dLbls c:dropLines c:hiLowLines c:upDownBars c:marker c:smooth c:axId*",
    "c:pieChart": "c:varyColors c:ser* c:dLbls c:firstSliceAng", "c:doughnutChart": "c:varyColors c:ser* c:dLbls c:firstSliceAng c:holeSize",
    "c:radarChart": "c:radarStyle c:varyColors c:ser* c:dLbls c:axId*", "c:scatterChart": "c:scatterStyle c:varyColors c:ser* c:dLbls c:axId*",
    "c:stockChart": "c:ser* c:dLbls c:dropLines c:hiLowLines c:upDownBars c:axId*",
    "c:ser": "c:idx c:order c:tx c:spPr c:invertIfNegative c:pictureOptions c:marker c:explosion c:dPt* c:dLbls c:trendline* c:errBars* (c:cat|c:xVal) (c:val|c:yVal) c:smooth c:shape c:extLst",
    "c:dPt": "c:idx c:invertIfNegative c:marker c:bubble3D c:explosion c:spPr c:pictureOptions",
    "c:dLbls": "c:dLbl* c:delete c:numFmt c:spPr c:txPr c:dLblPos c:showLegendKey c:showVal c:showCatName c:showSerName c:showPercent c:showBubbleSize c:separator c:showLeaderLines c:leaderLines c:extLst",
    "c:dLbl": "c:idx c:delete c:layout c:tx c:numFmt c:spPr c:txPr c:dLblPos c:showLegendKey c:showVal c:showCatName c:showSerName c:showPercent c:showBubbleSize c:separator c:extLst",
    "c:cat": "(c:multiLvlStrRef|c:numRef|c:numLit|c:strRef|c:strLit)", "c:xVal": "(c:multiLvlStrRef|c:numRef|c:numLit|c:strRef|c:strLit)",
    "c:val": "(c:numRef|c:numLit)", "c:yVal": "(c:numRef|c:numLit)", "c:plus": "(c:numRef|c:numLit)", "c:minus": "(c:numRef|c:numLit)",
    "c:numRef": "c:f c:numCache", "c:strRef": "c:f c:strCache", "c:numCache": "c:formatCode c:ptCount c:pt*", "c:strCache": "c:ptCount c:pt*", "c:pt": "c:v",
    "c:marker": "c:symbol c:size c:spPr", "c:tx": "(c:strRef|c:rich|c:v)", "c:rich": TXBODY, "c:txPr": TXBODY,
    "c:trendline": "c:name c:spPr c:trendlineType c:order c:period c:forward c:backward c:intercept c:dispRSqr c:dispEq c:trendlineLbl",
    "c:trendlineLbl": "c:layout c:tx c:numFmt c:spPr c:txPr",
    "c:errBars": "c:errDir c:errBarType c:errValType c:noEndCap c:plus c:minus c:val c:spPr",
    "c:upDownBars": "c:gapWidth c:upBars c:downBars", "c:upBars": "c:spPr", "c:downBars": "c:spPr", "c:dropLines": "c:spPr", "c:hiLowLines": "c:spPr",
    "c:majorGridlines": "c:spPr", "c:minorGridlines": "c:spPr",
    "c:catAx": AX + "c:auto c:lblAlgn c:lblOffset c:tickLblSkip c:tickMarkSkip c:noMultiLvlLbl",
    "c:valAx": AX + "c:crossBetween c:majorUnit c:minorUnit c:dispUnits",
    "c:dateAx": AX + "c:auto c:lblOffset c:baseTimeUnit c:majorUnit c:majorTimeUnit c:minorUnit c:minorTimeUnit",
    "c:scaling": "c:logBase c:orientation c:max c:min", "c:dispUnits": "(c:custUnit|c:builtInUnit) c:dispUnitsLbl", "c:dispUnitsLbl": "c:layout c:tx c:spPr c:txPr",
    "c:title": "c:tx c:layout c:overlay c:spPr c:txPr", "c:legend": "c:legendPos c:legendEntry* c:layout c:overlay c:spPr c:txPr",
    "c:legendEntry": "c:idx (c:delete|c:txPr)", "c:layout": "c:manualLayout",
    "c:manualLayout": "c:layoutTarget c:xMode c:yMode c:wMode c:hMode c:x c:y c:w c:h",
    "c:dTable": "c:showHorzBorder c:showVertBorder c:showOutline c:showKeys c:spPr c:txPr",
    "c:printSettings": "c:headerFooter c:pageMargins c:pageSetup", "c:spPr": SPPR,
    "c:extLst": "c:ext*", "c:ext": "(c14:invertSolidFillFmt|c15:showLeaderLines|c15:layout|c16r3:dataDisplayOptions16)",
    "c14:invertSolidFillFmt": "c14:spPr", "c14:spPr": SPPR, "c16r3:dataDisplayOptions16": "c16r3:dispNaAsBlank",
    # VML
    "#top": "{xml row* cfRule* x14:cfRule* r* c:areaChart c:barChart c:doughnutChart c:lineChart c:pieChart c:radarChart c:scatterChart c:stockChart}",
    "xml": "o:shapelayout {v:shapetype* v:shape*}", "o:shapelayout": "o:idmap",
    "v:shapetype": "{v:stroke v:path v:formulas o:lock}", "v:formulas": "v:f*",
    "v:shape": "{v:fill v:stroke v:shadow v:path v:textbox v:imagedata o:lock x:ClientData}", "v:textbox": "div", "div": "font",
    "x:ClientData": "{x:MoveWithCells x:SizeWithCells x:Anchor x:PrintObject x:AutoFill x:FmlaMacro x:TextHAlign x:TextVAlign x:Row x:Column x:Visible}",
}

VAL = "val"
COLOR = "auto indexed rgb theme tint"
ATTRS = {
    "Types": "xmlns", "Default": "Extension ContentType", "Override": "PartName ContentType",
    "Relationships": "xmlns", "Relationship": "Id Type Target TargetMode",
    "Properties": "xmlns xmlns:vt", "vt:vector": "size baseType", "property": "fmtid pid name linkTarget",
    "cp:coreProperties": "xmlns:cp xmlns:dc xmlns:dcterms xmlns:dcmitype xmlns:xsi", "dcterms:created": "xsi:type", "dcterms:modified": "xsi:type",
    "worksheet": "xmlns xmlns:r xmlns:mc xmlns:x14ac mc:Ignorable", "chartsheet": "xmlns xmlns:r",
    "sheetPr": "syncHorizontal syncVertical syncRef transitionEvaluation transitionEntry published codeName filterMode enableFormatConditionsCalculation",
    "tabColor": COLOR, "outlinePr": "applyStyles summaryBelow summaryRight showOutlineSymbols", "pageSetUpPr": "autoPageBreaks fitToPage",
    "dimension": "ref",
    "sheetView": "windowProtection showFormulas showGridLines showRowColHeaders showZeros rightToLeft tabSelected showRuler showOutlineSymbols defaultGridColor showWhiteSpace view topLeftCell colorId zoomScale zoomScaleNormal zoomScaleSheetLayoutView zoomScalePageLayoutView workbookViewId zoomToFit",
    "pane": "xSplit ySplit topLeftCell activePane state", "selection": "pane activeCell activeCellId sqref",
    "sheetFormatPr": "baseColWidth defaultColWidth defaultRowHeight customHeight zeroHeight thickTop thickBottom outlineLevelRow outlineLevelCol x14ac:dyDescent",
    "col": "min max width style hidden bestFit customWidth phonetic outlineLevel collapsed",
    "row": "r spans s customFormat ht hidden customHeight outlineLevel collapsed thickTop thickBot ph x14ac:dyDescent",
    "c": "r s t cm vm ph", "f": "t aca ref dt2D dtr del1 del2 r1 r2 ca si bx", "t": "xml:space",
    "sheetProtection": "algorithmName hashValue saltValue spinCount password sheet objects scenarios formatCells formatColumns formatRows insertColumns insertRows insertHyperlinks deleteColumns deleteRows selectLockedCells sort autoFilter pivotTables selectUnlockedCells content",
    "protectedRange": "password sqref name securityDescriptor",
    "autoFilter": "ref", "filterColumn": "colId hiddenButton showButton", "filters": "blank calendarType", "filter": "val",
    "customFilters": "and", "customFilter": "operator val", "mergeCells": "count", "mergeCell": "ref",
    "conditionalFormatting": "pivot sqref",
    "cfRule": "type dxfId priority stopIfTrue aboveAverage percent bottom operator text timePeriod rank stdDev equalAverage",
    "cfvo": "type val gte", "color": COLOR, "dataBar": "minLength maxLength showValue", "iconSet": "iconSet showValue percent reverse",
    "dataValidations": "disablePrompts xWindow yWindow count",
    "dataValidation": "type errorStyle imeMode operator allowBlank showDropDown showInputMessage showErrorMessage errorTitle error promptTitle prompt sqref",
    "hyperlink": "ref r:id location tooltip display", "printOptions": "horizontalCentered verticalCentered headings gridLines gridLinesSet",
    "pageMargins": "left right top bottom header footer",
    "pageSetup": "paperSize paperHeight paperWidth scale firstPageNumber fitToWidth fitToHeight pageOrder orientation usePrinterDefaults blackAndWhite draft cellComments useFirstPageNumber errors horizontalDpi verticalDpi copies r:id",
    "headerFooter": "differentOddEven differentFirst scaleWithDoc alignWithMargins", "rowBreaks": "count manualBreakCount", "colBreaks": "count manualBreakCount",
    "brk": "id min max man pt",
    "ignoredError": "sqref evalError twoDigitTextYear numberStoredAsText formula formulaRange unlockedFormula emptyCellReference listDataValidation calculatedColumn",
    "drawing": "r:id", "legacyDrawing": "r:id", "legacyDrawingHF": "r:id", "picture": "r:id", "tableParts": "count", "tablePart": "r:id",
    "ext": "uri xmlns:x14 xmlns:x15 xmlns:xfpb",
    "x14:conditionalFormatting": "xmlns:xm", "x14:cfRule": "type priority stopIfTrue aboveAverage percent bottom operator text timePeriod rank stdDev equalAverage activePresent id",
    "x14:dataBar": "minLength maxLength showValue border gradient direction negativeBarColorSameAsPositive negativeBarBorderColorSameAsPositive axisPosition",
    "x14:iconSet": "iconSet showValue percent reverse custom", "x14:cfvo": "type gte", "x14:cfIcon": "iconSet iconId",
    "x14:sparklineGroups": "xmlns:xm",
    "x14:sparklineGroup": "manualMax manualMin lineWeight type dateAxis displayEmptyCellsAs markers high low first last negative displayXAxis displayHidden minAxisType maxAxisType rightToLeft",
    "workbook": "xmlns xmlns:r", "fileVersion": "appName lastEdited lowestEdited rupBuild codeName", "fileSharing": "readOnlyRecommended userName reservationPassword",
    "workbookPr": "date1904 showObjects showBorderUnselectedTables filterPrivacy promptedSolutions showInkAnnotation backupFile saveExternalLinkValues updateLinks codeName hidePivotFieldList showPivotChartFilter allowRefreshQuery publishItems checkCompatibility autoCompressPictures refreshAllConnections defaultThemeVersion",
    "workbookView": "visibility minimized showHorizontalScroll showVerticalScroll showSheetTabs xWindow yWindow windowWidth windowHeight tabRatio firstSheet activeTab autoFilterDateGrouping",
    "sheet": "name sheetId state r:id", "definedName": "name comment customMenu description help statusBar localSheetId hidden function vbProcedure xlm functionGroupId shortcutKey publishToServer workbookParameter",
    "calcPr": "calcId calcMode fullCalcOnLoad refMode iterate iterateCount iterateDelta fullPrecision calcCompleted calcOnSave concurrentCalc concurrentManualCount forceFullCalc",
    "styleSheet": "xmlns", "numFmts": "count", "numFmt": "numFmtId formatCode", "fonts": "count", "fills": "count", "borders": "count", "cellStyleXfs": "count",
    "cellXfs": "count", "cellStyles": "count", "dxfs": "count", "tableStyles": "count defaultTableStyle defaultPivotStyle",
    "patternFill": "patternType", "fgColor": COLOR, "bgColor": COLOR, "border": "diagonalUp diagonalDown outline",
    "left": "style", "right": "style", "top": "style", "bottom": "style", "diagonal": "style", "vertical": "style", "horizontal": "style",
    "xf": "numFmtId fontId fillId borderId xfId quotePrefix pivotButton applyNumberFormat applyFont applyFill applyBorder applyAlignment applyProtection",
    "alignment": "horizontal vertical textRotation wrapText indent relativeIndent justifyLastLine shrinkToFit readingOrder", "protection": "locked hidden",
    "cellStyle": "name xfId builtinId iLevel hidden customBuiltin",
    "sst": "xmlns count uniqueCount",
    "comments": "xmlns", "comment": "ref authorId guid shapeId",
    "table": "xmlns id name displayName comment ref tableType headerRowCount insertRow insertRowShift totalsRowCount totalsRowShown published headerRowDxfId dataDxfId totalsRowDxfId headerRowBorderDxfId tableBorderDxfId totalsRowBorderDxfId headerRowCellStyle dataCellStyle totalsRowCellStyle",
    "tableColumns": "count", "tableColumn": "id uniqueName name totalsRowFunction totalsRowLabel queryTableFieldId headerRowDxfId dataDxfId totalsRowDxfId headerRowCellStyle dataCellStyle totalsRowCellStyle",
    "tableStyleInfo": "name showFirstColumn showLastColumn showRowStripes showColumnStripes",
    "calculatedColumnFormula": "array", "totalsRowFormula": "array",
    "metadata": "xmlns xmlns:xlrd xmlns:xda", "metadataTypes": "count",
    "metadataType": "name minSupportedVersion ghostRow ghostCol edit delete copy pasteAll pasteFormulas pasteValues pasteFormats pasteComments pasteDataValidation pasteBorders pasteColWidths pasteNumberFormats merge splitFirst splitAll rowColShift clearAll clearFormats clearContents clearComments assign coerce adjust cellMeta",
    "futureMetadata": "name count", "cellMetadata": "count", "valueMetadata": "count", "rc": "t v", "xda:dynamicArrayProperties": "fDynamic fCollapsed", "xlrd:rvb": "i",
    "richValueRels": "xmlns xmlns:r", "rel": "r:id", "rvData": "xmlns count", "rv": "s", "rvStructures": "xmlns count", "s": "t k", "k": "n t",
    "rvTypesInfo": "xmlns xmlns:mc mc:Ignorable xmlns:x", "key": "name", "flag": "name value",
    "FeaturePropertyBags": "xmlns", "bag": "type extRef", "bagId": "k", "a": "k", "xfpb:xfComplement": "i", "xfpb:DXFComplement": "i",
    # drawings
    "xdr:wsDr": "xmlns:xdr xmlns:a", "xdr:twoCellAnchor": "editAs", "xdr:pos": "x y", "xdr:ext": "cx cy", "xdr:sp": "macro textlink fLocksText fPublished",
    "xdr:cNvSpPr": "txBox", "xdr:cNvPr": "id name descr hidden title", "a:hlinkClick": "xmlns:r r:id tooltip", "xdr:graphicFrame": "macro fPublished",
    "a:graphicFrameLocks": "noGrp", "a:off": "x y", "a:ext": "cx cy uri", "a:graphicData": "uri", "c:chart": "xmlns:c xmlns:r r:id",
    "a:picLocks": "noChangeAspect", "a:blip": "xmlns:r r:embed cstate", "a:prstGeom": "prst", "adec:decorative": "xmlns:adec val", "a16:creationId": "xmlns:a16 id",
    "a:lnRef": "idx", "a:fillRef": "idx", "a:effectRef": "idx", "a:fontRef": "idx", "a:scrgbClr": "r g b", "a:fld": "id type",
    "a:bodyPr": "rot spcFirstLastPara vertOverflow horzOverflow vert wrap lIns tIns rIns bIns numCol spcCol rtlCol fromWordArt anchor anchorCtr forceAA upright compatLnSpc",
    "a:pPr": "marL marR lvl indent algn defTabSz rtl eaLnBrk fontAlgn latinLnBrk hangingPunct",
    "a:latin": "typeface panose pitchFamily charset", "a:ea": "typeface panose pitchFamily charset", "a:cs": "typeface panose pitchFamily charset",
    "a:ln": "w cap cmpd algn", "a:prstDash": VAL, "a:srgbClr": VAL, "a:schemeClr": VAL, "a:sysClr": "val lastClr", "a:alpha": VAL, "a:lumMod": VAL, "a:lumOff": VAL,
    "a:gs": "pos", "a:gradFill": "flip rotWithShape", "a:lin": "ang scaled", "a:path": "path", "a:fillToRect": "l t r b", "a:tileRect": "l t r b", "a:pattFill": "prst",
    "a:theme": "xmlns:a name", "a:clrScheme": "name", "a:fontScheme": "name", "a:fmtScheme": "name", "a:font": "script typeface", "a:satMod": VAL, "a:shade": VAL, "a:tint": VAL,
    "a:camera": "prst", "a:lightRig": "rig dir", "a:rot": "lat lon rev", "a:bevelT": "w h", "a:outerShdw": "blurRad dist dir rotWithShape sx sy kx ky algn",
    # charts
    "c:chartSpace": "xmlns:c xmlns:a xmlns:r", "c:numFmt": "formatCode sourceLinked", "c:pt": "idx formatCode", "c:pageMargins": "b l r t header footer",
    "c:ext": "uri xmlns:c14 xmlns:c15 xmlns:c16r3", "c14:spPr": "xmlns:c14", "c:pageSetup": "orientation",
    # VML
    "xml": "xmlns:v xmlns:o xmlns:x", "o:shapelayout": "v:ext", "o:idmap": "v:ext data",
    "v:shapetype": "id coordsize o:spt o:preferrelative path filled stroked", "v:stroke": "joinstyle",
    "v:path": "gradientshapeok o:connecttype o:extrusionok shadowok strokeok fillok", "v:f": "eqn", "o:lock": "v:ext shapetype rotation aspectratio",
    "v:shape": "id o:spid type alt o:button style fillcolor strokecolor o:insetmode", "v:fill": "color2 o:detectmouseclick", "v:shadow": "on color obscured",
    "v:textbox": "style o:singleclick", "div": "style", "font": "face size color", "v:imagedata": "o:relid o:title", "x:ClientData": "ObjectType",
}
for _t in "a:rPr a:defRPr a:endParaRPr".split():
    ATTRS[_t] = "kumimoji lang altLang sz b i u strike kern cap spc normalizeH baseline noProof dirty err smtClean smtId bmk"
# elements with a single val attribute
for _t in ("b i u sz family charset scheme vertAlign rFont name strike c:marker c:val c15:showLeaderLines c16r3:dispNaAsBlank c:auto c:autoTitleDeleted c:axId c:axPos "
           "c:backward c:barDir c:builtInUnit c:crossAx c:crossBetween c:crosses c:crossesAt c:dLblPos c:delete c:dispBlanksAs c:dispEq c:dispRSqr "
           "c:errBarType c:errDir c:errValType c:firstSliceAng c:forward c:gapWidth c:grouping c:h c:holeSize c:idx c:intercept c:invertIfNegative "
           "c:layoutTarget c:lblAlgn c:lblOffset c:legendPos c:logBase c:majorTickMark c:majorTimeUnit c:majorUnit c:max c:min c:minorTickMark "
           "c:minorTimeUnit c:minorUnit c:noEndCap c:order c:orientation c:overlap c:overlay c:period c:plotVisOnly c:ptCount c:radarStyle "
           "c:scatterStyle c:showCatName c:showHorzBorder c:showKeys c:showLeaderLines c:showLegendKey c:showOutline c:showPercent c:showSerName "
           "c:showVal c:showVertBorder c:size c:smooth c:symbol c:tickLblPos c:tickLblSkip c:tickMarkSkip c:trendlineType c:varyColors c:w c:x c:xMode "
           "c:y c:yMode c:lang c:style c:wMode c:hMode c:showBubbleSize c:noMultiLvlLbl c:baseTimeUnit c:roundedCorners c:explosion c:date1904 "
           "x14:axisColor").split():
    if _t not in ATTRS: ATTRS[_t] = VAL
for _t in ("x14:axisColor x14:borderColor x14:negativeBorderColor x14:negativeFillColor x14:fillColor x14:colorAxis x14:colorFirst x14:colorHigh x14:colorLast "
           "x14:colorLow x14:colorMarkers x14:colorNegative x14:colorSeries").split(): ATTRS[_t] = COLOR

def parse(model):
    """name -> (position, repeatable), for a content model"""
    out = {}; pos = 0
    for m in re.finditer(r"\{([^}]*)\}|\(([^)]*)\)(\*?)|(\S+)", model):
        any_, alt, rep, one = m.groups()
        if any_ is not None:
            for x in any_.split():
                out[x.rstrip("*")] = (pos, "any*" if x.endswith("*") else "any")
        elif alt is not None:
            for x in alt.split("|"): out[x] = (pos, "alt*" if rep else "alt")
        else: out[one.rstrip("*")] = (pos, "rep" if one.endswith("*") else "one")
        pos += 1
    return out

ORDER = {k: parse(v) for k, v in CHILDREN.items()}
ATTRSET = {k: frozenset(v.split()) for k, v in ATTRS.items()}
