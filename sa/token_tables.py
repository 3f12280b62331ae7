"""Reviewed token tables: the text that each value of a public enumeration has in the
file format (ECMA-376 simple types, [MS-XLSX] extensions). Written from the
format documents; the tables are the oracle, never regenerated from /repo."""

# The text of Display impls. None: formatted from the payload.
DISPLAY = {'ChartAxisCrossing': {'Automatic': 'autoZero', 'Min': 'min', 'Max': 'max', 'CategoryNumber': None, 'AxisValue': None},
 'ChartAxisDateUnitType': {'Days': 'days', 'Months': 'months', 'Years': 'years'},
 'ChartAxisDisplayUnitType': {'None': 'none',
                              'Hundreds': 'hundreds',
                              'Thousands': 'thousands',
                              'TenThousands': 'tenThousands',
                              'HundredThousands': 'hundredThousands',
                              'Millions': 'millions',
                              'TenMillions': 'tenMillions',
                              'HundredMillions': 'hundredMillions',
                              'Billions': 'billions',
                              'Trillions': 'trillions'},
 'ChartAxisLabelAlignment': {'Center': 'ctr', 'Left': 'l', 'Right': 'r'},
 'ChartAxisLabelPosition': {'NextTo': 'nextTo', 'High': 'high', 'Low': 'low', 'None': 'none'},
 'ChartAxisPosition': {'Top': 't', 'Bottom': 'b', 'Left': 'l', 'Right': 'r'},
 'ChartAxisTickType': {'None': 'none', 'Inside': 'in', 'Outside': 'out', 'Cross': 'cross'},
 'ChartDataLabelPosition': {'Default': '',
                            'Center': 'ctr',
                            'Right': 'r',
                            'Left': 'l',
                            'Above': 't',
                            'Below': 'b',
                            'InsideBase': 'inBase',
                            'InsideEnd': 'inEnd',
                            'OutsideEnd': 'outEnd',
                            'BestFit': 'bestFit'},
 'ChartEmptyCells': {'Gaps': 'gap', 'Zero': 'zero', 'Connected': 'span'},
 'ChartErrorBarsDirection': {'Both': 'both', 'Minus': 'minus', 'Plus': 'plus'},
 'ChartErrorBarsType': {'FixedValue': 'fixedVal',
                        'Percentage': 'percentage',
                        'StandardDeviation': 'stdDev',
                        'StandardError': 'stdErr',
                        'Custom': 'cust'},
 'ChartGrouping': {'Stacked': 'stacked', 'Standard': 'standard', 'Clustered': 'clustered', 'PercentStacked': 'percentStacked'},
 'ChartLegendPosition': {'Right': 'r', 'Left': 'l', 'Top': 't', 'Bottom': 'b', 'TopRight': 'tr'},
 'ChartLineDashType': {'Solid': 'solid',
                       'RoundDot': 'sysDot',
                       'SquareDot': 'sysDash',
                       'Dash': 'dash',
                       'DashDot': 'dashDot',
                       'LongDash': 'lgDash',
                       'LongDashDot': 'lgDashDot',
                       'LongDashDotDot': 'lgDashDotDot'},
 'ChartMarkerType': {'Square': 'square',
                     'Diamond': 'diamond',
                     'Triangle': 'triangle',
                     'X': 'x',
                     'Star': 'star',
                     'ShortDash': 'dot',
                     'LongDash': 'dash',
                     'Circle': 'circle',
                     'PlusSign': 'plus'},
 'ChartPatternFillType': {'Dotted5Percent': 'pct5',
                          'Dotted10Percent': 'pct10',
                          'Dotted20Percent': 'pct20',
                          'Dotted25Percent': 'pct25',
                          'Dotted30Percent': 'pct30',
                          'Dotted40Percent': 'pct40',
                          'Dotted50Percent': 'pct50',
                          'Dotted60Percent': 'pct60',
                          'Dotted70Percent': 'pct70',
                          'Dotted75Percent': 'pct75',
                          'Dotted80Percent': 'pct80',
                          'Dotted90Percent': 'pct90',
                          'DiagonalStripesLightDownwards': 'ltDnDiag',
                          'DiagonalStripesLightUpwards': 'ltUpDiag',
                          'DiagonalStripesDarkDownwards': 'dkDnDiag',
                          'DiagonalStripesDarkUpwards': 'dkUpDiag',
                          'DiagonalStripesWideDownwards': 'wdDnDiag',
                          'DiagonalStripesWideUpwards': 'wdUpDiag',
                          'VerticalStripesLight': 'ltVert',
                          'HorizontalStripesLight': 'ltHorz',
                          'VerticalStripesNarrow': 'narVert',
                          'HorizontalStripesNarrow': 'narHorz',
                          'VerticalStripesDark': 'dkVert',
                          'HorizontalStripesDark': 'dkHorz',
                          'StripesBackslashes': 'dashDnDiag',
                          'StripesForwardSlashes': 'dashUpDiag',
                          'HorizontalStripesAlternating': 'dashHorz',
                          'VerticalStripesAlternating': 'dashVert',
                          'SmallConfetti': 'smConfetti',
                          'LargeConfetti': 'lgConfetti',
                          'Zigzag': 'zigZag',
                          'Wave': 'wave',
                          'DiagonalBrick': 'diagBrick',
                          'HorizontalBrick': 'horzBrick',
                          'Weave': 'weave',
                          'Plaid': 'plaid',
                          'Divot': 'divot',
                          'DottedGrid': 'dotGrid',
                          'DottedDiamond': 'dotDmnd',
                          'Shingle': 'shingle',
                          'Trellis': 'trellis',
                          'Sphere': 'sphere',
                          'SmallGrid': 'smGrid',
                          'LargeGrid': 'lgGrid',
                          'SmallCheckerboard': 'smCheck',
                          'LargeCheckerboard': 'lgCheck',
                          'OutlinedDiamondGrid': 'openDmnd',
                          'SolidDiamondGrid': 'solidDmnd'},
 'ChartTrendlineType': {'None': 'none',
                        'Exponential': 'exp',
                        'Linear': 'linear',
                        'Logarithmic': 'log',
                        'Polynomial': 'poly',
                        'Power': 'power',
                        'MovingAverage': 'movingAvg'},
 'ConditionalFormatDateRule': {'Yesterday': 'yesterday',
                               'Today': 'today',
                               'Tomorrow': 'tomorrow',
                               'Last7Days': 'last7Days',
                               'LastWeek': 'lastWeek',
                               'ThisWeek': 'thisWeek',
                               'NextWeek': 'nextWeek',
                               'LastMonth': 'lastMonth',
                               'ThisMonth': 'thisMonth',
                               'NextMonth': 'nextMonth'},
 'ConditionalFormatIconType': {'ThreeArrows': '3Arrows',
                               'ThreeArrowsGray': '3ArrowsGray',
                               'ThreeFlags': '3Flags',
                               'ThreeTrafficLights': '3TrafficLights1',
                               'ThreeTrafficLightsWithRim': '3TrafficLights2',
                               'ThreeSigns': '3Signs',
                               'ThreeSymbolsCircled': '3Symbols',
                               'ThreeSymbols': '3Symbols2',
                               'ThreeStars': '3Stars',
                               'ThreeTriangles': '3Triangles',
                               'FourArrows': '4Arrows',
                               'FourArrowsGray': '4ArrowsGray',
                               'FourRedToBlack': '4RedToBlack',
                               'FourHistograms': '4Rating',
                               'FourTrafficLights': '4TrafficLights',
                               'FiveArrows': '5Arrows',
                               'FiveArrowsGray': '5ArrowsGray',
                               'FiveHistograms': '5Rating',
                               'FiveQuadrants': '5Quarters',
                               'FiveBoxes': '5Boxes'},
 'ConditionalFormatTextRule': {'Contains': 'containsText', 'DoesNotContain': 'notContains', 'BeginsWith': 'beginsWith', 'EndsWith': 'endsWith'},
 'DataValidationErrorStyle': {'Stop': 'stop', 'Warning': 'warning', 'Information': 'information'},
 'DataValidationRuleInternal': {'EqualTo': 'equal',
                                'NotEqualTo': 'notEqual',
                                'GreaterThan': 'greaterThan',
                                'GreaterThanOrEqualTo': 'greaterThanOrEqual',
                                'LessThan': 'lessThan',
                                'LessThanOrEqualTo': 'lessThanOrEqual',
                                'Between': 'between',
                                'NotBetween': 'notBetween',
                                'CustomFormula': '',
                                'ListSource': 'list'},
 'DataValidationType': {'Whole': 'whole',
                        'Decimal': 'decimal',
                        'Date': 'date',
                        'Time': 'time',
                        'TextLength': 'textLength',
                        'Custom': 'custom',
                        'List': 'list',
                        'Any': 'any'},
 'FormatBorder': {'None': 'none',
                  'Thin': 'thin',
                  'Medium': 'medium',
                  'Dashed': 'dashed',
                  'Dotted': 'dotted',
                  'Thick': 'thick',
                  'Double': 'double',
                  'Hair': 'hair',
                  'MediumDashed': 'mediumDashed',
                  'DashDot': 'dashDot',
                  'MediumDashDot': 'mediumDashDot',
                  'DashDotDot': 'dashDotDot',
                  'MediumDashDotDot': 'mediumDashDotDot',
                  'SlantDashDot': 'slantDashDot'},
 'FormatPattern': {'None': 'none',
                   'Solid': 'solid',
                   'MediumGray': 'mediumGray',
                   'DarkGray': 'darkGray',
                   'LightGray': 'lightGray',
                   'DarkHorizontal': 'darkHorizontal',
                   'DarkVertical': 'darkVertical',
                   'DarkDown': 'darkDown',
                   'DarkUp': 'darkUp',
                   'DarkGrid': 'darkGrid',
                   'DarkTrellis': 'darkTrellis',
                   'LightHorizontal': 'lightHorizontal',
                   'LightVertical': 'lightVertical',
                   'LightDown': 'lightDown',
                   'LightUp': 'lightUp',
                   'LightGrid': 'lightGrid',
                   'LightTrellis': 'lightTrellis',
                   'Gray125': 'gray125',
                   'Gray0625': 'gray0625'},
 'ShapeLineDashType': {'Solid': 'solid',
                       'RoundDot': 'sysDot',
                       'SquareDot': 'sysDash',
                       'Dash': 'dash',
                       'DashDot': 'dashDot',
                       'LongDash': 'lgDash',
                       'LongDashDot': 'lgDashDot',
                       'LongDashDotDot': 'lgDashDotDot'},
 'ShapePatternFillType': {'Dotted5Percent': 'pct5',
                          'Dotted10Percent': 'pct10',
                          'Dotted20Percent': 'pct20',
                          'Dotted25Percent': 'pct25',
                          'Dotted30Percent': 'pct30',
                          'Dotted40Percent': 'pct40',
                          'Dotted50Percent': 'pct50',
                          'Dotted60Percent': 'pct60',
                          'Dotted70Percent': 'pct70',
                          'Dotted75Percent': 'pct75',
                          'Dotted80Percent': 'pct80',
                          'Dotted90Percent': 'pct90',
                          'DiagonalStripesLightDownwards': 'ltDnDiag',
                          'DiagonalStripesLightUpwards': 'ltUpDiag',
                          'DiagonalStripesDarkDownwards': 'dkDnDiag',
                          'DiagonalStripesDarkUpwards': 'dkUpDiag',
                          'DiagonalStripesWideDownwards': 'wdDnDiag',
                          'DiagonalStripesWideUpwards': 'wdUpDiag',
                          'VerticalStripesLight': 'ltVert',
                          'HorizontalStripesLight': 'ltHorz',
                          'VerticalStripesNarrow': 'narVert',
                          'HorizontalStripesNarrow': 'narHorz',
                          'VerticalStripesDark': 'dkVert',
                          'HorizontalStripesDark': 'dkHorz',
                          'StripesBackslashes': 'dashDnDiag',
                          'StripesForwardSlashes': 'dashUpDiag',
                          'HorizontalStripesAlternating': 'dashHorz',
                          'VerticalStripesAlternating': 'dashVert',
                          'SmallConfetti': 'smConfetti',
                          'LargeConfetti': 'lgConfetti',
                          'Zigzag': 'zigZag',
                          'Wave': 'wave',
                          'DiagonalBrick': 'diagBrick',
                          'HorizontalBrick': 'horzBrick',
                          'Weave': 'weave',
                          'Plaid': 'plaid',
                          'Divot': 'divot',
                          'DottedGrid': 'dotGrid',
                          'DottedDiamond': 'dotDmnd',
                          'Shingle': 'shingle',
                          'Trellis': 'trellis',
                          'Sphere': 'sphere',
                          'SmallGrid': 'smGrid',
                          'LargeGrid': 'lgGrid',
                          'SmallCheckerboard': 'smCheck',
                          'LargeCheckerboard': 'lgCheck',
                          'OutlinedDiamondGrid': 'openDmnd',
                          'SolidDiamondGrid': 'solidDmnd'},
 'TableFunction': {'None': 'None',
                   'Average': 'average',
                   'Count': 'count',
                   'CountNumbers': 'countNums',
                   'Max': 'max',
                   'Min': 'min',
                   'Sum': 'sum',
                   'StdDev': 'stdDev',
                   'Var': 'var',
                   'Custom': 'custom'},
 'TableStyle': {'None': 'TableStyleNone',
                'Light1': 'TableStyleLight1',
                'Light2': 'TableStyleLight2',
                'Light3': 'TableStyleLight3',
                'Light4': 'TableStyleLight4',
                'Light5': 'TableStyleLight5',
                'Light6': 'TableStyleLight6',
                'Light7': 'TableStyleLight7',
                'Light8': 'TableStyleLight8',
                'Light9': 'TableStyleLight9',
                'Light10': 'TableStyleLight10',
                'Light11': 'TableStyleLight11',
                'Light12': 'TableStyleLight12',
                'Light13': 'TableStyleLight13',
                'Light14': 'TableStyleLight14',
                'Light15': 'TableStyleLight15',
                'Light16': 'TableStyleLight16',
                'Light17': 'TableStyleLight17',
                'Light18': 'TableStyleLight18',
                'Light19': 'TableStyleLight19',
                'Light20': 'TableStyleLight20',
                'Light21': 'TableStyleLight21',
                'Medium1': 'TableStyleMedium1',
                'Medium2': 'TableStyleMedium2',
                'Medium3': 'TableStyleMedium3',
                'Medium4': 'TableStyleMedium4',
                'Medium5': 'TableStyleMedium5',
                'Medium6': 'TableStyleMedium6',
                'Medium7': 'TableStyleMedium7',
                'Medium8': 'TableStyleMedium8',
                'Medium9': 'TableStyleMedium9',
                'Medium10': 'TableStyleMedium10',
                'Medium11': 'TableStyleMedium11',
                'Medium12': 'TableStyleMedium12',
                'Medium13': 'TableStyleMedium13',
                'Medium14': 'TableStyleMedium14',
                'Medium15': 'TableStyleMedium15',
                'Medium16': 'TableStyleMedium16',
                'Medium17': 'TableStyleMedium17',
                'Medium18': 'TableStyleMedium18',
                'Medium19': 'TableStyleMedium19',
                'Medium20': 'TableStyleMedium20',
                'Medium21': 'TableStyleMedium21',
                'Medium22': 'TableStyleMedium22',
                'Medium23': 'TableStyleMedium23',
                'Medium24': 'TableStyleMedium24',
                'Medium25': 'TableStyleMedium25',
                'Medium26': 'TableStyleMedium26',
                'Medium27': 'TableStyleMedium27',
                'Medium28': 'TableStyleMedium28',
                'Dark1': 'TableStyleDark1',
                'Dark2': 'TableStyleDark2',
                'Dark3': 'TableStyleDark3',
                'Dark4': 'TableStyleDark4',
                'Dark5': 'TableStyleDark5',
                'Dark6': 'TableStyleDark6',
                'Dark7': 'TableStyleDark7',
                'Dark8': 'TableStyleDark8',
                'Dark9': 'TableStyleDark9',
                'Dark10': 'TableStyleDark10',
                'Dark11': 'TableStyleDark11'},
 'IgnoreError': {'NumberStoredAsText': 'numberStoredAsText',
                 'FormulaError': 'evalError',
                 'FormulaDiffers': 'formula',
                 'FormulaRefersToEmptyCells': 'emptyCellReference',
                 'FormulaOmitsCells': 'formulaRange',
                 'DataValidationError': 'listDataValidation',
                 'TwoDigitTextYear': 'twoDigitTextYear',
                 'UnlockedCellsWithFormula': 'unlockedFormula',
                 'InconsistentColumnFormula': 'calculatedColumn'}}

# The text of a generic Display impl or of a hand-written match, per variant.
#  "name=value"   an attribute pair
#  "=value"       a text
#  "t:..."        a formatted text ({} for the arguments)
#  "e:Enum::Var"  a value of another enumeration
#  "i:n"          an integer
#  "r:tag"        a text reached through the functions called for the variant
# A leading "?" marks a token that is allowed but not required of every copy of the table.
INLINE = [
 ("ConditionalFormatCellRule", {"EqualTo": ["=equal"], "NotEqualTo": ["=notEqual"], "GreaterThan": ["=greaterThan"], "GreaterThanOrEqualTo": ["=greaterThanOrEqual"],
   "LessThan": ["=lessThan"], "LessThanOrEqualTo": ["=lessThanOrEqual"], "Between": ["=between"], "NotBetween": ["=notBetween"]}),
 ("ConditionalFormatTextRule", {"Contains": ["type=containsText"], "DoesNotContain": ["type=notContainsText"], "BeginsWith": ["type=beginsWith"], "EndsWith": ["type=endsWith"]},
   [{"Contains", "BeginsWith", "EndsWith"}]),
 ("ConditionalFormatAverageRule", {"AboveAverage": [], "BelowAverage": ["aboveAverage=0"], "EqualOrAboveAverage": ["equalAverage=1"], "EqualOrBelowAverage": ["aboveAverage=0", "equalAverage=1"],
   "OneStandardDeviationAbove": ["stdDev=1"], "OneStandardDeviationBelow": ["aboveAverage=0", "stdDev=1"], "TwoStandardDeviationsAbove": ["stdDev=2"], "TwoStandardDeviationsBelow": ["aboveAverage=0", "stdDev=2"],
   "ThreeStandardDeviationsAbove": ["stdDev=3"], "ThreeStandardDeviationsBelow": ["aboveAverage=0", "stdDev=3"]}),
 ("ConditionalFormatTopRule", {"Top": [], "Bottom": ["bottom=1"], "TopPercent": ["percent=1"], "BottomPercent": ["bottom=1", "percent=1"]}),
 ("ConditionalFormatType", {"Automatic": ["?type=min", "?type=max", "?type=autoMin", "?type=autoMax", "?type=percent"], "Lowest": ["type=min", "?type=percent"], "Number": ["type=num"], "Percent": ["type=percent"],
   "Formula": ["type=formula"], "Percentile": ["type=percentile"], "Highest": ["type=max", "?type=percent"]},
   [{"Number", "Percent", "Formula", "Percentile"}]),
 ("ConditionalFormatDataBarAxisPosition", {"Automatic": [], "Midpoint": ["axisPosition=middle"], "None": ["axisPosition=none"]}),
 ("ConditionalFormatDataBarDirection", {"Context": [], "LeftToRight": ["direction=leftToRight"], "RightToLeft": ["direction=rightToLeft"]}),
 ("ConditionalFormatIconType", dict([(v, ["i:0", "i:33", "i:67"]) for v in ("ThreeArrows", "ThreeArrowsGray", "ThreeFlags", "ThreeTrafficLights", "ThreeTrafficLightsWithRim", "ThreeSigns", "ThreeSymbolsCircled", "ThreeSymbols", "ThreeStars", "ThreeTriangles")]
   + [(v, ["i:0", "i:25", "i:50", "i:75"]) for v in ("FourArrows", "FourArrowsGray", "FourRedToBlack", "FourHistograms", "FourTrafficLights")]
   + [(v, ["i:0", "i:20", "i:40", "i:60", "i:80"]) for v in ("FiveArrows", "FiveArrowsGray", "FiveHistograms", "FiveQuadrants", "FiveBoxes")])),
 ("FilterCriteria", {"EqualTo": [], "NotEqualTo": ["=notEqual"], "GreaterThan": ["=greaterThan"], "GreaterThanOrEqualTo": ["=greaterThanOrEqual"], "LessThan": ["=lessThan"], "LessThanOrEqualTo": ["=lessThanOrEqual"],
   "BeginsWith": [], "DoesNotBeginWith": ["=notEqual"], "EndsWith": [], "DoesNotEndWith": ["=notEqual"], "Contains": [], "DoesNotContain": ["=notEqual"]}),
 ("FilterCriteria", {"EqualTo": [], "NotEqualTo": [], "GreaterThan": [], "GreaterThanOrEqualTo": [], "LessThan": [], "LessThanOrEqualTo": [],
   "BeginsWith": ["t:{}*"], "DoesNotBeginWith": ["t:{}*"], "EndsWith": ["t:*{}"], "DoesNotEndWith": ["t:*{}"], "Contains": ["t:*{}*"], "DoesNotContain": ["t:*{}*"]}),
 ("FormatAlign", {"General": [], "Left": ["horizontal=left"], "Center": ["horizontal=center"], "Right": ["horizontal=right"], "Fill": ["horizontal=fill"], "Justify": ["horizontal=justify"], "CenterAcross": ["horizontal=centerContinuous"],
   "Distributed": ["horizontal=distributed"], "Top": ["vertical=top"], "Bottom": [], "VerticalCenter": ["vertical=center"], "VerticalJustify": ["vertical=justify"], "VerticalDistributed": ["vertical=distributed"]}),
 ("FormatDiagonalBorder", {"None": [], "BorderUp": ["diagonalUp=1"], "BorderDown": ["diagonalDown=1"], "BorderUpDown": ["diagonalUp=1", "diagonalDown=1"]}),
 ("FormatScript", {"None": [], "Superscript": ["val=superscript"], "Subscript": ["val=subscript"]}),
 ("FormatUnderline", {"None": [], "Single": [], "Double": ["val=double"], "SingleAccounting": ["val=singleAccounting"], "DoubleAccounting": ["val=doubleAccounting"]}),
 ("HeaderImagePosition", {"Left": ["=LH", "=LF"], "Center": ["=CH", "=CF"], "Right": ["=RH", "=RF"]}),
 ("ObjectMovement", {"MoveAndSizeWithCells": [], "MoveButDontSizeWithCells": ["editAs=oneCell"], "DontMoveOrSizeWithCells": ["editAs=absolute"], "MoveAndSizeWithCellsAfter": []}),
 ("XlsxImageType", {"Unknown": [], "Png": ["=png"], "Jpg": ["=jpeg"], "Gif": ["=gif"], "Bmp": ["=bmp"]}),
 ("ChartGradientFillType", {"Linear": [], "Radial": ["path=circle"], "Rectangular": ["path=rect"], "Path": ["path=shape"]}),
 ("ShapeGradientFillType", {"Linear": [], "Radial": ["path=circle"], "Rectangular": ["path=rect"], "Path": ["path=shape"]}),
 ("ShapeTextDirection", {"Horizontal": [], "Rotate270": ["vert=vert270"], "Rotate90": ["vert=vert"], "Rotate90EastAsian": ["vert=eaVert"], "Stacked": ["vert=wordArtVert"]}),
 ("ShapeTextHorizontalAlignment", {"Default": [], "Left": ["algn=l"], "Center": ["algn=ctr"], "Right": ["algn=r"]}),
 ("ShapeTextVerticalAlignment", {"Top": ["anchor=t"], "Middle": ["anchor=ctr", "anchorCtr=0"], "Bottom": ["anchor=b", "anchorCtr=0"], "TopCentered": ["anchor=t", "anchorCtr=1"], "MiddleCentered": ["anchor=ctr", "anchorCtr=1"], "BottomCentered": ["anchor=b", "anchorCtr=1"]}),
 ("SparklineType", {"Line": [], "Column": ["type=column"], "WinLose": ["type=stacked"]}),
 ("TableFunction", {"None": [], "Custom": [], "Average": ["t:SUBTOTAL(101,[{}])"], "CountNumbers": ["t:SUBTOTAL(102,[{}])"], "Count": ["t:SUBTOTAL(103,[{}])"], "Max": ["t:SUBTOTAL(104,[{}])"], "Min": ["t:SUBTOTAL(105,[{}])"],
   "StdDev": ["t:SUBTOTAL(107,[{}])"], "Sum": ["t:SUBTOTAL(109,[{}])"], "Var": ["t:SUBTOTAL(110,[{}])"]}),
 ("DefinedNameType", {"Global": [], "Local": [], "Autofilter": ["=_xlnm._FilterDatabase"], "PrintArea": ["=_xlnm.Print_Area"], "PrintTitles": ["=_xlnm.Print_Titles"]}),
 ("PageView", {"Normal": ["=zoomScaleNormal"], "PageLayout": ["view=pageLayout", "=zoomScalePageLayoutView"], "PageBreaks": ["view=pageBreakPreview", "=zoomScaleSheetLayoutView"]}),
 ("Visible", {"Default": [], "Hidden": ["state=hidden"], "VeryHidden": ["state=veryHidden"]}),
 ("Color", {"RGB": [], "Theme": ["?=000000"], "Default": ["?=000000"], "Automatic": ["?=000000", "?=FFFFFF"], "Black": ["?=000000"], "Blue": ["=0000FF"], "Brown": ["=800000"], "Cyan": ["=00FFFF"], "Gray": ["=808080"], "Green": ["=008000"], "Lime": ["=00FF00"], "Magenta": ["=FF00FF"],
   "Navy": ["=000080"], "Orange": ["=FF6600"], "Pink": ["=FFC0CB"], "Purple": ["=800080"], "Red": ["=FF0000"], "Silver": ["=C0C0C0"], "White": ["=FFFFFF"], "Yellow": ["=FFFF00"]}),
 ("ChartType", {**{v: [] for v in ("Doughnut", "Pie", "Radar", "RadarWithMarkers", "RadarFilled", "Scatter", "ScatterStraight", "ScatterStraightWithMarkers", "ScatterSmooth", "ScatterSmoothWithMarkers", "Stock")},
   "Area": ["e:ChartGrouping::Standard"], "AreaStacked": ["e:ChartGrouping::Stacked"], "AreaPercentStacked": ["e:ChartGrouping::PercentStacked", "=0%"],
   "Bar": ["e:ChartGrouping::Clustered"], "BarStacked": ["e:ChartGrouping::Stacked"], "BarPercentStacked": ["e:ChartGrouping::PercentStacked", "=0%"],
   "Column": ["e:ChartGrouping::Clustered"], "ColumnStacked": ["e:ChartGrouping::Stacked"], "ColumnPercentStacked": ["e:ChartGrouping::PercentStacked", "=0%"],
   "Line": ["e:ChartGrouping::Standard"], "LineStacked": ["e:ChartGrouping::Stacked"], "LinePercentStacked": ["e:ChartGrouping::PercentStacked", "=0%"]}),
 ("ChartType", {"RadarFilled": ["val=filled"], "*": ["?val=marker"]}),
 ("ChartType", {"ScatterSmooth": ["val=smoothMarker"], "ScatterSmoothWithMarkers": ["val=smoothMarker"], "*": ["?val=lineMarker"]}),
 ("ChartType", dict([(v, ["r:c:areaChart"]) for v in ("Area", "AreaStacked", "AreaPercentStacked")] + [(v, ["r:c:barChart"]) for v in ("Bar", "BarStacked", "BarPercentStacked", "Column", "ColumnStacked", "ColumnPercentStacked")]
   + [(v, ["r:c:lineChart"]) for v in ("Line", "LineStacked", "LinePercentStacked")] + [("Doughnut", ["r:c:doughnutChart"]), ("Pie", ["r:c:pieChart"]), ("Stock", ["r:c:stockChart"])]
   + [(v, ["r:c:radarChart"]) for v in ("Radar", "RadarWithMarkers", "RadarFilled")] + [(v, ["r:c:scatterChart"]) for v in ("Scatter", "ScatterStraight", "ScatterStraightWithMarkers", "ScatterSmooth", "ScatterSmoothWithMarkers")])),
 ("CustomPropertyType", {"Text": ["r:vt:lpwstr"], "Int": ["r:vt:i4"], "Real": ["r:vt:r8"], "Bool": ["r:vt:bool"], "DateTime": ["r:vt:filetime"]}),
 ("DataValidationRule", {v: ["e:DataValidationRuleInternal::" + v] for v in ("EqualTo", "NotEqualTo", "GreaterThan", "GreaterThanOrEqualTo", "LessThan", "LessThanOrEqualTo", "Between", "NotBetween")}),
 ("ConditionalFormatCellRule", {v: ["e:ConditionalFormatCellRule::" + v] for v in ("EqualTo", "NotEqualTo", "GreaterThan", "GreaterThanOrEqualTo", "LessThan", "LessThanOrEqualTo", "Between", "NotBetween")}),
 ("ChartRangeCacheDataType", {"Date": ["=dd/mm/yyyy"], "*": ["?=General"]}),
]

# Theme colours: SpreadsheetML tint of (theme row, shade) and DrawingML scheme name and luminance.
TINT = {0: {1: "-4.9989318521683403E-2", 2: "-0.14999847407452621", 3: "-0.249977111117893", 4: "-0.34998626667073579", 5: "-0.499984740745262"},
        1: {1: "0.499984740745262", 2: "0.34998626667073579", 3: "0.249977111117893", 4: "0.14999847407452621", 5: "4.9989318521683403E-2"},
        2: {1: "-9.9978637043366805E-2", 2: "-0.249977111117893", 3: "-0.499984740745262", 4: "-0.749992370372631", 5: "-0.89999084444715716"},
        3: {1: "0.79998168889431442", 2: "0.59999389629810485", 3: "0.39997558519241921", 4: "-0.249977111117893", 5: "-0.499984740745262"}}
SCHEME = ["bg1", "tx1", "bg2", "tx2", "accent1", "accent2", "accent3", "accent4", "accent5", "accent6"]
_D = {0: (0, 0), 1: (20000, 80000), 2: (40000, 60000), 3: (60000, 40000), 4: (75000, 0), 5: (50000, 0)}
LUM = {0: {0: (0, 0), 1: (95000, 0), 2: (85000, 0), 3: (75000, 0), 4: (65000, 0), 5: (50000, 0)},
       1: {0: (0, 0), 1: (50000, 50000), 2: (65000, 35000), 3: (75000, 25000), 4: (85000, 15000), 5: (95000, 5000)},
       2: {0: (0, 0), 1: (90000, 0), 2: (75000, 0), 3: (50000, 0), 4: (25000, 0), 5: (10000, 0)}}
for _i in range(3, 10): LUM[_i] = _D

# The values an enumerated attribute may have (ECMA-376 simple types).
LEGAL = {
 "alignment horizontal": "general left center right fill justify centerContinuous distributed", "alignment vertical": "top center bottom justify distributed",
 "a:bodyPr anchor": "t ctr b just dist", "a:bodyPr vert": "horz vert vert270 wordArtVert eaVert mongolianVert wordArtVertRtl", "a:bodyPr wrap": "none square",
 "a:defRPr strike": "noStrike sngStrike dblStrike", "a:endParaRPr strike": "noStrike sngStrike dblStrike", "a:rPr strike": "noStrike sngStrike dblStrike",
 "a:defRPr u": "none sng dbl heavy", "a:endParaRPr u": "none sng dbl heavy", "a:rPr u": "none sng dbl heavy",
 "a:pPr algn": "l ctr r just justLow dist thaiDist", "a:path path": "shape circle rect", "a:gradFill flip": "none x y xy", "a:ln algn": "ctr in", "a:ln cap": "rnd sq flat", "a:ln cmpd": "sng dbl thickThin thinThick tri",
 "a:schemeClr val": " bg1 tx1 bg2 tx2 accent1 accent2 accent3 accent4 accent5 accent6 hlink folHlink phClr dk1 lt1 dk2 lt2", "a:sysClr val": "window windowText",
 "c t": "b d e inlineStr n s str", "f t": "normal array dataTable shared", "c:axPos val": "b l r t", "c:barDir val": "bar col", "c:crossBetween val": "between midCat", "c:crosses val": "autoZero max min",
 "c:errDir val": "x y", "c:layoutTarget val": "inner outer", "c:orientation val": "maxMin minMax", "c:radarStyle val": "standard marker filled", "c:scatterStyle val": "none line lineMarker marker smooth smoothMarker",
 "c:symbol val": "none auto circle dash diamond dot picture plus square star triangle x", "c:xMode val": "edge factor", "c:yMode val": "edge factor",
 "cfRule type": "expression cellIs colorScale dataBar iconSet top10 uniqueValues duplicateValues containsText notContainsText beginsWith endsWith containsBlanks notContainsBlanks containsErrors notContainsErrors timePeriod aboveAverage",
 "cfvo type": "num percent max min formula percentile", "x14:cfvo type": "num percent max min formula percentile autoMin autoMax", "x14:cfRule type": "dataBar iconSet", "customFilter operator": " equal lessThan lessThanOrEqual notEqual greaterThanOrEqual greaterThan",
 "pageSetup orientation": "default portrait landscape", "pageSetup pageOrder": "downThenOver overThenDown", "pane activePane": "bottomRight topRight bottomLeft topLeft", "selection pane": "bottomRight topRight bottomLeft topLeft", "pane state": "split frozen frozenSplit",
 "sheet state": "visible hidden veryHidden", "sheetView view": "normal pageBreakPreview pageLayout", "u val": "single double singleAccounting doubleAccounting none", "vertAlign val": "baseline superscript subscript",
 "x14:dataBar axisPosition": "automatic middle none", "x14:dataBar direction": "context leftToRight rightToLeft", "x14:sparklineGroup type": "line column stacked", "x14:sparklineGroup minAxisType": "individual group custom", "x14:sparklineGroup maxAxisType": "individual group custom",
 "x:ClientData ObjectType": "Button Note", "xdr:twoCellAnchor editAs": "twoCell oneCell absolute", "t xml:space": "preserve", "vt:vector baseType": "lpstr variant",
 "patternFill patternType": "none solid mediumGray darkGray lightGray darkHorizontal darkVertical darkDown darkUp darkGrid darkTrellis lightHorizontal lightVertical lightDown lightUp lightGrid lightTrellis gray125 gray0625",
 "x14:cfIcon iconSet": "NoIcons", "a:prstDash val": "solid dot dash lgDash dashDot lgDashDot lgDashDotDot sysDash sysDot sysDashDot sysDashDotDot", "a:prstGeom prst": "rect", "fontScheme val": "none minor major", "scheme val": "none minor major",
 "a:fontRef idx": "minor major none", "v:path o:connecttype": "none rect segments custom", "v:stroke joinstyle": "miter round bevel",
}
