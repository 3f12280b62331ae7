"""Types of the attributes (ECMA-376, [MS-XLSX], VML as Excel writes it)."""
LEX = {
    "bool": r"^(0|1|true|false)$", "tf": r"^(t|f|true|false|0|1)$", "uint": r"^\d+$", "int": r"^-?\d+$", "double": r"^-?\d+(\.\d+)?([eE][-+]?\d+)?$",
    "hex8": r"^[0-9A-F]{8}$", "hex6": r"^[0-9A-Fa-f]{6}$", "hex4": r"^[0-9A-F]{4}$", "guid": r"^\{[0-9A-Fa-f]{8}(-[0-9A-Fa-f]{4}){3}-[0-9A-Fa-f]{12}\}$",
    "ref": r"^\$?[A-Z]{1,3}\$?\d+(:\$?[A-Z]{1,3}\$?\d+)?( \$?[A-Z]{1,3}\$?\d+(:\$?[A-Z]{1,3}\$?\d+)?)*$",
}
NAMES = {"bool": "a boolean (0 or 1)", "tf": "a boolean (t or f)", "uint": "an unsigned integer", "int": "an integer", "double": "a number", "hex8": "a colour of eight hexadecimal digits",
    "hex6": "a colour of six hexadecimal digits", "hex4": "a hash of four hexadecimal digits", "guid": "a GUID", "ref": "a cell reference"}
NUMERIC_DISPLAY = ()
# fields that are computed in pixels and then converted, see c26.positioned
POSITIONED = ("drawing::DrawingInfo.width", "drawing::DrawingInfo.height")
FLOOR = 390; FLOOR_DECIDED = 900
_B = """a:bodyPr@anchorCtr a:bodyPr@rtlCol a:defRPr@b a:defRPr@i a:rPr@b a:rPr@i a:endParaRPr@b a:endParaRPr@i a:gradFill@rotWithShape a:outerShdw@rotWithShape a:lin@scaled a:pPr@rtl
a:graphicFrameLocks@noGrp a:picLocks@noChangeAspect adec:decorative@val alignment@shrinkToFit alignment@wrapText border@diagonalDown border@diagonalUp brk@man c15:showLeaderLines@val c16r3:dispNaAsBlank@val
c:auto@val c:autoTitleDeleted@val c:delete@val c:dispEq@val c:dispRSqr@val c:invertIfNegative@val c:noEndCap@val c:overlay@val c:plotVisOnly@val c:showCatName@val c:showHorzBorder@val c:showKeys@val
c:showLeaderLines@val c:showLegendKey@val c:showOutline@val c:showPercent@val c:showSerName@val c:showVal@val c:showVertBorder@val c:showBubbleSize@val c:smooth@val c:varyColors@val c:marker@val c:numFmt@sourceLinked c:noMultiLvlLbl@val c:roundedCorners@val c:date1904@val
calcPr@fullCalcOnLoad cfRule@aboveAverage cfRule@bottom cfRule@equalAverage cfRule@percent cfRule@stopIfTrue cfvo@gte x14:cfvo@gte col@bestFit col@collapsed col@customWidth col@hidden color@auto
customFilters@and dataBar@showValue dataValidation@allowBlank dataValidation@showDropDown dataValidation@showErrorMessage dataValidation@showInputMessage definedName@hidden fileSharing@readOnlyRecommended
filters@blank flag@value headerFooter@alignWithMargins headerFooter@scaleWithDoc headerFooter@differentFirst headerFooter@differentOddEven iconSet@reverse iconSet@showValue iconSet@percent
ignoredError@calculatedColumn ignoredError@emptyCellReference ignoredError@evalError ignoredError@formula ignoredError@formulaRange ignoredError@listDataValidation ignoredError@numberStoredAsText ignoredError@twoDigitTextYear ignoredError@unlockedFormula
metadataType@assign metadataType@cellMeta metadataType@clearComments metadataType@clearFormats metadataType@coerce metadataType@copy metadataType@merge metadataType@pasteAll metadataType@pasteValues metadataType@pasteFormats metadataType@pasteComments metadataType@rowColShift metadataType@splitFirst metadataType@clearContents metadataType@clearAll metadataType@delete metadataType@edit metadataType@pasteFormulas metadataType@pasteDataValidation metadataType@pasteBorders metadataType@pasteColWidths metadataType@pasteNumberFormats metadataType@splitAll metadataType@adjust metadataType@ghostRow metadataType@ghostCol
outlinePr@summaryBelow outlinePr@summaryRight outlinePr@applyStyles outlinePr@showOutlineSymbols pageSetUpPr@fitToPage pageSetup@blackAndWhite pageSetup@draft pageSetup@useFirstPageNumber
printOptions@gridLines printOptions@headings printOptions@horizontalCentered printOptions@verticalCentered protection@hidden protection@locked row@collapsed row@customFormat row@customHeight row@hidden
sheetFormatPr@customHeight sheetFormatPr@zeroHeight sheetPr@filterMode sheetProtection@autoFilter sheetProtection@content sheetProtection@deleteColumns sheetProtection@deleteRows sheetProtection@formatCells sheetProtection@formatColumns
sheetProtection@formatRows sheetProtection@insertColumns sheetProtection@insertHyperlinks sheetProtection@insertRows sheetProtection@objects sheetProtection@pivotTables sheetProtection@scenarios sheetProtection@selectLockedCells sheetProtection@selectUnlockedCells sheetProtection@sheet sheetProtection@sort
sheetView@rightToLeft sheetView@showGridLines sheetView@tabSelected sheetView@showRowColHeaders sheetView@showZeros sheetView@showFormulas sheetView@showOutlineSymbols table@totalsRowShown tableStyleInfo@showColumnStripes tableStyleInfo@showFirstColumn tableStyleInfo@showLastColumn tableStyleInfo@showRowStripes
x14:dataBar@border x14:dataBar@gradient x14:dataBar@showValue x14:dataBar@negativeBarBorderColorSameAsPositive x14:dataBar@negativeBarColorSameAsPositive x14:iconSet@custom x14:iconSet@reverse x14:iconSet@showValue
x14:sparklineGroup@dateAxis x14:sparklineGroup@displayHidden x14:sparklineGroup@displayXAxis x14:sparklineGroup@first x14:sparklineGroup@high x14:sparklineGroup@last x14:sparklineGroup@low x14:sparklineGroup@markers x14:sparklineGroup@negative x14:sparklineGroup@rightToLeft
xda:dynamicArrayProperties@fCollapsed xda:dynamicArrayProperties@fDynamic xdr:cNvSpPr@txBox xf@applyAlignment xf@applyBorder xf@applyFill xf@applyFont xf@applyNumberFormat xf@applyProtection xf@quotePrefix workbookPr@date1904 workbookView@showHorizontalScroll workbookView@showVerticalScroll workbookView@showSheetTabs"""
_TF = "o:lock@aspectratio o:lock@rotation o:lock@shapetype v:fill@o:detectmouseclick v:path@fillok v:path@gradientshapeok v:path@o:extrusionok v:path@shadowok v:path@strokeok v:shadow@obscured v:shadow@on v:shape@o:button v:shapetype@filled v:shapetype@o:preferrelative v:shapetype@stroked v:textbox@o:singleclick"
_U = """a:bevelT@h a:bevelT@w a:effectRef@idx a:fillRef@idx a:lnRef@idx a:gs@pos a:ln@w a:ext@cx a:ext@cy a:outerShdw@blurRad a:outerShdw@dist a:defRPr@sz a:endParaRPr@sz a:rPr@sz xdr:ext@cx xdr:ext@cy
a:alpha@val a:shade@val a:tint@val a:cs@pitchFamily a:latin@pitchFamily alignment@indent alignment@readingOrder alignment@textRotation bgColor@indexed fgColor@indexed color@indexed bgColor@theme fgColor@theme color@theme tabColor@theme
borders@count fonts@count fills@count numFmts@count cellXfs@count cellStyleXfs@count cellStyles@count dxfs@count tableStyles@count brk@id brk@max c:axId@val c:crossAx@val c:firstSliceAng@val c:gapWidth@val c:holeSize@val c:idx@val c:order@val c:lblOffset@val c:size@val c:style@val c:pt@idx c:ptCount@val c:tickLblSkip@val c:tickMarkSkip@val c:period@val
c@s c@cm c@vm calcPr@calcId cellMetadata@count cellStyle@builtinId cellStyle@xfId cfRule@dxfId cfRule@priority cfRule@rank col@max col@min col@outlineLevel col@style colBreaks@count colBreaks@manualBreakCount rowBreaks@count rowBreaks@manualBreakCount comment@authorId
dataValidations@count definedName@localSheetId fileVersion@lastEdited fileVersion@lowestEdited fileVersion@rupBuild filterColumn@colId futureMetadata@count mergeCells@count metadataType@minSupportedVersion metadataTypes@count numFmt@numFmtId pageSetup@fitToHeight pageSetup@fitToWidth pageSetup@horizontalDpi pageSetup@verticalDpi pageSetup@paperSize pageSetup@scale pageSetup@firstPageNumber pageSetup@copies
row@r row@outlineLevel row@s rc@t rc@v rv@s rvData@count rvStructures@count sheet@sheetId sheetFormatPr@outlineLevelCol sheetFormatPr@outlineLevelRow sheetView@workbookViewId sheetView@zoomScale sheetView@zoomScaleNormal sheetView@zoomScalePageLayoutView sheetView@zoomScaleSheetLayoutView sst@count sst@uniqueCount
table@headerRowCount table@totalsRowCount table@id tableColumn@dataDxfId tableColumn@id tableColumns@count tableParts@count valueMetadata@count vt:vector@size workbookPr@defaultThemeVersion workbookView@activeTab workbookView@firstSheet workbookView@windowHeight workbookView@windowWidth x14:cfIcon@iconId x14:cfRule@priority x14:colorAxis@theme x14:colorFirst@theme x14:colorHigh@theme x14:colorLast@theme x14:colorLow@theme x14:colorMarkers@theme x14:colorNegative@theme x14:colorSeries@theme x14:dataBar@maxLength x14:dataBar@minLength
xdr:cNvPr@id xf@borderId xf@fillId xf@fontId xf@numFmtId xf@xfId xfpb:DXFComplement@i xfpb:xfComplement@i xlrd:rvb@i property@pid charset@val family@val"""
_I = "a:bodyPr@rot a:defRPr@baseline a:endParaRPr@baseline a:rPr@baseline a:cs@charset a:latin@charset a:fillToRect@b a:fillToRect@l a:fillToRect@r a:fillToRect@t a:tileRect@b a:tileRect@r a:lin@ang a:lumMod@val a:lumOff@val a:satMod@val a:off@x a:off@y a:outerShdw@dir a:rot@lat a:rot@lon a:rot@rev c:overlap@val xdr:pos@x xdr:pos@y workbookView@xWindow workbookView@yWindow cfRule@stdDev"
_D = """bgColor@tint fgColor@tint color@tint tabColor@tint x14:colorAxis@tint x14:colorFirst@tint x14:colorHigh@tint x14:colorLast@tint x14:colorLow@tint x14:colorMarkers@tint x14:colorNegative@tint x14:colorSeries@tint
c:backward@val c:forward@val c:intercept@val c:h@val c:w@val c:x@val c:y@val c:logBase@val c:pageMargins@b c:pageMargins@footer c:pageMargins@header c:pageMargins@l c:pageMargins@r c:pageMargins@t c:val@val col@width row@ht row@x14ac:dyDescent pageMargins@bottom pageMargins@footer pageMargins@header pageMargins@left pageMargins@right pageMargins@top pane@xSplit pane@ySplit sheetFormatPr@defaultRowHeight sheetFormatPr@x14ac:dyDescent sheetFormatPr@baseColWidth x14:sparklineGroup@lineWeight x14:sparklineGroup@manualMax x14:sparklineGroup@manualMin sz@val"""
_H8 = "bgColor@rgb fgColor@rgb color@rgb tabColor@rgb x14:axisColor@rgb x14:borderColor@rgb x14:fillColor@rgb x14:negativeBorderColor@rgb x14:negativeFillColor@rgb x14:colorAxis@rgb x14:colorFirst@rgb x14:colorHigh@rgb x14:colorLast@rgb x14:colorLow@rgb x14:colorMarkers@rgb x14:colorNegative@rgb x14:colorSeries@rgb"
_H6 = "a:srgbClr@val a:sysClr@lastClr"
_G = "x14:id@_text x14:cfRule@id a16:creationId@id a:ext@uri c:ext@uri ext@uri a:fld@id fileVersion@codeName property@fmtid"
_R = "autoFilter@ref c@r comment@ref dimension@ref f@ref hyperlink@ref mergeCell@ref table@ref pane@topLeftCell selection@activeCell selection@sqref sheetView@topLeftCell"
TYPES = {}
for t, l in (("bool", _B), ("tf", _TF), ("uint", _U), ("int", _I), ("double", _D), ("hex8", _H8), ("hex6", _H6), ("guid", _G), ("ref", _R)):
    for x in l.split(): TYPES[x] = t
def type_of(tag, n): return TYPES.get("%s@%s" % (tag, n))
def describe(v):
    k = v[0]
    if k == "s": return "'%s'" % v[1]
    if k == "str": return "the text of a value of type %s" % (v[2] if len(v) > 2 else "?")
    if k == "phi": return " or ".join(sorted({describe(x) for x in v[1]}))
    if k == "call": return "the text of %s" % str(v[1])
    if k == "disp": return "the text of a %s" % str(v[1])
    return "another text"
