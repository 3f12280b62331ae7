#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list of semantic properties) from the table below."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={"over": over, "text": qtext}, why_tests_cant=why, anchors=a))

S = "src/"
prop("C01", "Every XML part is well nested",
 "For every workbook a program can build, each XML part and XML fragment that the library writes is balanced: every element that is opened is closed, by an end tag of the same name, in the right order, and nothing follows the root element. This holds for every combination of options, optional features (charts, tables, sparklines, conditional formats, comments, drawings, protection, rich strings, constant-memory mode) and empty or non-empty collections.",
 ["inputs", "configurations"], "every combination of options and collections that selects a path through the XML writers",
 "The tests compare a few hundred fixed workbooks with Excel's files; the combinations of optional sections (2^n) are not sampled, and each writer test calls one writer with one setup.",
 [S+"xmlwriter.rs", S+"worksheet.rs", S+"chart.rs", S+"drawing.rs", S+"vml.rs", S+"styles.rs", S+"conditional_format.rs", S+"table.rs", S+"packager.rs"],
 [("paired xml_start_tag / xml_end_tag calls", "src/*.rs write_* methods"), ("assemble_xml_file of each part", "src/*.rs")],
 observe=["bytes of each part in the xlsx package"])
prop("C02", "Child elements follow the schema's sequence",
 "Wherever the ECMA-376 schemas (and the Microsoft extension schemas) prescribe a sequence for the children of an element, the library writes the children it emits in that sequence, at most once where the schema allows one, and only under a parent that allows them. This must hold for every combination of options, since Excel reports a file with children out of sequence as corrupt.",
 ["inputs", "configurations"], "every combination of options that makes two optional children appear together",
 "Tests exercise selected pairs of optional elements; an order error between two options that no test uses together stays invisible.",
 [S+"worksheet.rs", S+"chart.rs", S+"drawing.rs", S+"styles.rs", S+"workbook.rs", S+"table.rs", S+"conditional_format.rs", S+"chartsheet.rs"],
 [("statement order in assemble_xml_file and write_* methods", "src/*.rs")], observe=["bytes of each part"])
prop("C03", "Elements carry only known attributes, never one twice",
 "No element the library writes ever carries the same attribute twice, and every attribute name it writes is one that the file format defines for that element.",
 ["inputs", "configurations"], "every path on which attributes of one element are collected",
 "A duplicate needs two options that both add the attribute; tests cover the options one by one.",
 [S+"worksheet.rs", S+"chart.rs", S+"styles.rs", S+"table.rs", S+"workbook.rs", S+"conditional_format.rs", S+"drawing.rs", S+"vml.rs"],
 [("attribute vectors passed to xml_start_tag / xml_empty_tag", "src/*.rs")], observe=["bytes of each part"])
prop("C04", "User text is always escaped before it becomes XML",
 "Any text that comes from the caller (cell strings, formulas, names, titles, urls, notes, number formats, headers, document properties) reaches an XML part only after the XML-special characters have been replaced, in element content and in attribute values alike. The escaping itself covers every special character: `&`, `<`, `>` in text; `&`, `<`, `>`, `\"` and newline in attributes; and control characters and literal `_xHHHH_` sequences in strings.",
 ["inputs"], "every caller-supplied string, at every place where strings enter the output",
 "Tests escape a handful of strings in a handful of places; a text that bypasses the escaping at one of several hundred places is only visible with special characters in that place.",
 [S+"xmlwriter.rs", S+"worksheet.rs", S+"shared_strings.rs", S+"conditional_format.rs", S+"vml.rs", S+"relationship.rs", S+"format.rs"],
 [("escape_xml_data, escape_attributes, escape_xml_escapes", S+"xmlwriter.rs"), ("raw writers", S+"xmlwriter.rs")], observe=["bytes of each part"])
prop("C05", "Row and column arguments are limit-checked before use",
 "Every public method that stores or uses a caller-supplied row or column (cell writes, ranges, merges, tables, images, charts, comments, filters, formats, heights, widths, print areas, panes) rejects or ignores positions outside 1,048,576 rows by 16,384 columns, and ranges whose first row/column exceeds the last, before anything is stored. No arithmetic on an unchecked row or column can overflow.",
 ["inputs"], "every u32 row and u16 column, for every public method",
 "Tests check the limits on a few methods at a few values.",
 [S+"worksheet.rs", S+"chartsheet.rs", S+"utility.rs", S+"table.rs", S+"sparkline.rs", S+"data_validation.rs", S+"conditional_format.rs"],
 [("check_dimensions / check_dimensions_only and RowColumnLimitError / RowColumnOrderError", S+"worksheet.rs")],
 state=[("ROW_MAX, COL_MAX", "Excel's limits", S+"worksheet.rs")], observe=["return values of the public API", "cell references in the parts"])
prop("C06", "Output is a deterministic function of the API calls",
 "The same sequence of API calls produces the same bytes on every run: no iteration order of a hash container, thread schedule, clock, random number, address or environment value influences what is written, except the documented creation time stamp.",
 ["schedules", "histories"], "every run, hash seed and thread schedule",
 "Each test runs once with one hash seed per process; order effects need several entries in a map and an unlucky seed.",
 [S+"worksheet.rs", S+"workbook.rs", S+"packager.rs", S+"format.rs", S+"serializer.rs", S+"properties.rs"],
 [("BTreeMap for ordered data, HashMap only for lookups", "src/*.rs")], observe=["bytes of the package"])
prop("C07", "Saving twice does not accumulate output state",
 "A workbook can be saved, changed through the public API and saved again. Nothing that an earlier save left behind in the workbook adds to or alters what a later save writes: each piece of state that a save builds up in the workbook and its worksheets (XML writers, relationship lists and ids, drawing, VML and image lists, number format, font, fill and border tables and counts, defined names, default names, the default active sheet, rows hidden by filters, chart caches, table ids, flags such as has_comments) is cleared or written again before the later save reads it or adds to it. Meant to persist, and so excluded: the tables of cell formats, differential formats, shared strings and note authors (what was used once keeps its number), the axis ids of charts, and the rows that constant memory mode has already written to its temporary file.",
 ["histories"], "every history with two or more saves",
 "The re-save tests save a few dozen small workbooks twice with default features; a state that accumulates needs that object kind in that test.",
 [S+"workbook.rs", S+"worksheet.rs", S+"packager.rs", S+"chart.rs", S+"drawing.rs", S+"table.rs"],
 [("Workbook::reset, Worksheet::reset, Workbook::save_internal and the prepare_* functions", "src/workbook.rs, src/worksheet.rs")], observe=["bytes of the second package"])
prop("C08", "Package parts, content types and relationships agree",
 "Every part that is added to the package has the content type of its kind (by an override with its name or by its extension) and is the target of a relationship of its kind, and every relationship target and content-type override names a part that is written, under the same conditions and with the same numbering. This holds for worksheets with any combination of images, charts, shapes, notes, tables, header/footer images, background images, embedded images and hyperlinks, in any number and any order of sheets, and for chartsheets that hold a chart and header images.",
 ["inputs", "configurations"], "every combination and number of objects that adds parts, in every sheet",
 "Tests fix particular combinations of parts.",
 [S+"packager.rs", S+"content_types.rs", S+"relationship.rs", S+"worksheet.rs"],
 [("Packager::assemble_file and its write_*_file methods", S+"packager.rs"), ("ContentTypes::add_*", S+"content_types.rs"), ("Relationship::add_*", S+"relationship.rs")],
 observe=["[Content_Types].xml", "_rels/*.rels", "zip directory"])
prop("C09", "Every enumerated option maps to its own file-format token",
 "Each public enumeration value (types, styles, positions, operators, themes, icons, image kinds, errors to ignore) is written as the token the file format defines for it: tokens are non-empty where an attribute is written, legal for that attribute and different for different values. This includes the SUBTOTAL number of a table total function, the chart element and grouping of a chart type, the comparison operator of a filter, validation or conditional format rule, and the tint, scheme name and luminance values of a theme colour.",
 ["inputs"], "every variant of every public enum that is written to a part",
 "Tests exercise some variants of each enum; many variants of large enums are never written by a test.",
 [S+"chart.rs", S+"format.rs", S+"conditional_format.rs", S+"table.rs", S+"sparkline.rs", S+"data_validation.rs", S+"shape.rs", S+"filter.rs", S+"worksheet.rs"],
 [("Display impls and match tables", "src/*.rs")], observe=["attribute values in the parts"])
prop("C10", "Formats are identified by all their visible properties",
 "Two formats share an index in the styles part only if every property that can be set on a format and that is written to the styles part is equal: equality and hashing (of formats and of the fonts, fills, borders and alignments inside them) consider every such property, consistently with each other, and merging two formats considers every one of them.",
 ["inputs"], "every pair of formats",
 "Tests compare a handful of formats; a property missing from the identity is only visible with two formats that differ in just that property.",
 [S+"format.rs", S+"workbook.rs", S+"worksheet.rs", S+"styles.rs"],
 [("impl Hash / PartialEq for Format, Font, Fill, Border, Alignment", S+"format.rs"), ("Format::merge_with", S+"format.rs")], observe=["xl/styles.xml", "s= attributes"])
prop("C11", "Every setter has an effect on the saved file",
 "Every public method that sets an option stores its argument, and what it stores is read by the code that writes the file: no setting is silently dropped.",
 ["inputs", "configurations"], "every public setter of every public type",
 "Several setters are only covered by a test of the writer with one combination, or by none.",
 ["src/*.rs"], [("field stores in pub methods, field loads in code reachable from save", "src/*.rs")], observe=["bytes of the package"])
prop("C12", "A format given with a cell, row or column is applied",
 "Every public method that takes a cell, row, column or range format together with data applies that format to what it writes on every path on which the call succeeds, whatever the kind of data (number, string, formula, array or dynamic formula, boolean, url, error, rich string, blank, date, image).",
 ["inputs"], "every data kind and every path through the store functions",
 "Tests pair a format with some kinds of data only.",
 [S+"worksheet.rs"], [("store_* functions and get_xf_index", S+"worksheet.rs")], observe=["s= attribute of cells, rows and columns"])
prop("C13", "Shared tables stay consistent under concurrent use",
 "Tables that several worksheets share (shared strings, format indices) assign each distinct value exactly one index and each index one value, whatever the interleaving of threads that write worksheets: looking up and inserting happen under one exclusive lock, and worksheets assembled in parallel at save time write no other shared state.",
 ["schedules"], "every interleaving of threads that write worksheets",
 "Tests are single threaded on these tables; a race needs an interleaving inside a window of a few instructions.",
 [S+"worksheet.rs", S+"workbook.rs", S+"shared_strings_table.rs", S+"shared_strings.rs", S+"packager.rs"],
 [("Mutex<SharedStringsTable>, RwLock<HashMap<Format, u32>>", S+"worksheet.rs")], observe=["indices in sheets, shared strings and styles parts"])
prop("C14", "I/O errors while saving are reported, never swallowed",
 "If any write, seek, file creation or zip operation fails while a workbook is saved, the save method returns an error: no such result is discarded, turned into success or into a panic, and success is returned only after the zip archive has been finished.",
 ["fault_sequences"], "every I/O call on the save path failing",
 "Tests never inject I/O failures into the writer.",
 [S+"packager.rs", S+"workbook.rs", S+"worksheet.rs"], [("? propagation into XlsxError", S+"packager.rs")], observe=["return value of save*"])
prop("C15", "Calls that fail leave the worksheet unchanged",
 "A public method of a worksheet, workbook or chart (other than the save methods) that returns an error has not changed the object: cells, ranges, tables, filters, charts, row and column options, names and flags are the same as before the call, so that the program can continue and save. (The recorded used range is not part of this, and a method that stores several of the caller's values, such as the row, column and matrix writers, the serialization methods and the headers, totals and formulas of add_table(), may have stored the values before the one that failed.)",
 ["inputs", "histories"], "every failing call",
 "Tests check that an error is returned, not what the failed call left behind.",
 [S+"worksheet.rs", S+"workbook.rs", S+"chartsheet.rs"], [("validation before stores", S+"worksheet.rs")], observe=["state of the object after the error, later saves"])
prop("C16", "Every range a chart refers to gets its data cache",
 "Every data range that a chart (or its combined chart, title, axis titles, series values, categories and names, custom data labels or error bars) can hold and that the chart writes with a cache is collected when the workbook is prepared and filled from the worksheet data (the plain string, number and date/time cells of the range) before the chart is written: a chart kind, a worksheet's or chartsheet's charts or a range holder is never left out, and the cache holds one entry for each cell of the range, in order.",
 ["inputs", "configurations"], "every kind of range in every kind of chart",
 "Tests cover series ranges and some label and error-bar ranges.",
 [S+"workbook.rs", S+"chart.rs", S+"worksheet.rs"], [("insert_chart_ranges / update_chart_ranges (data cache)", S+"workbook.rs")], observe=["xl/charts/chart*.xml"])
prop("C17", "NaN and infinities never reach a number cell",
 "A floating point value that is not finite is never written as the value of a number cell: every public way to write a floating point number checks it first and writes the documented error or string value instead.",
 ["inputs"], "every f64, through every public write path",
 "Tests write a few NaN/Inf values through one method.",
 [S+"worksheet.rs", S+"serializer.rs"], [("store_number", S+"worksheet.rs")], observe=["c/v elements of the sheet"])
prop("C18", "Saving to memory does not touch the file system",
 "Saving to a buffer or to a caller-supplied writer opens, creates and removes no file, and saving to a path creates exactly that path; only the constant-memory mode uses temporary files, which are anonymous and disappear on their own.",
 ["configurations", "inputs"], "every workbook and every save method",
 "Tests look at the result, not at other file-system effects.",
 [S+"workbook.rs", S+"packager.rs", S+"worksheet.rs", S+"image.rs"], [("File::create in Workbook::save, tempfile() in constant memory mode", S+"workbook.rs")], observe=["file-system calls"])
prop("C19", "Public types can be moved to and shared between threads",
 "Workbook, Worksheet, Format, Chart and every other public type of the crate can be sent to another thread and shared by reference, in every feature configuration.",
 ["configurations", "schedules"], "every public type and feature set",
 "No test asserts the auto traits; a field of a non-thread-safe type only breaks user programs.",
 ["src/lib.rs", "src/*.rs"], [("auto traits of the field types", "src/*.rs")], observe=["compilation of user programs"])
prop("C20", "Excel's length and character limits are enforced before storing",
 "Texts and numbers that exceed Excel's documented limits (texts are measured in characters) are rejected, or ignored with a warning, by the public methods that take them, before they are stored: cell strings and rich strings (32,767), url links and anchors (2,080) and tips (255), sheet names (31, not blank, none of `[ ] : * ? / \\`, no apostrophe at either end), defined name characters, VBA names, alternative text and button captions (255), data validation titles (32), messages and lists (255), note authors (52) and texts (32,713), headers and footers (255), page breaks (1,023) and outline levels (7).",
 ["inputs"], "every string, in particular non-ASCII ones at the limit",
 "Tests use ASCII strings just over the limit for some of the methods.",
 [S+"worksheet.rs", S+"workbook.rs", S+"utility.rs", S+"data_validation.rs", S+"table.rs", S+"url.rs"], [("length checks and validators", "src/*.rs")], observe=["return values", "bytes of the parts"])
prop("C21", "Constant-memory mode writes what normal mode writes",
 "A worksheet in constant-memory or low-memory mode writes every kind of cell and every row attribute (height, format, hidden, outline level, collapsed) that a normal worksheet writes, for the same fields and under the same conditions, with the cell's own row, column and format. Buffered rows leave the buffer in ascending order, each exactly once, including rows that only have options, and all of them before the sheet is packaged; cells of later rows that are written ahead (merged ranges, tables, array formulas) are kept for their row; writing back to an already flushed row is never accepted out of order.",
 ["configurations", "inputs"], "every sequence of writes in row order, in each memory mode",
 "The constant-memory tests cover a few cell kinds.",
 [S+"worksheet.rs", S+"packager.rs"], [("write_data_table / flush_data_row", S+"worksheet.rs")], observe=["sheetData of the part"])
prop("C22", "Relationship ids agree with the relationship files",
 "Every relationship id that a worksheet, chartsheet, workbook, drawing or VML part refers to (r:id, r:embed, r:link, o:relid) exists in that part's relationship file, and the relationship with that id has the kind the referring element needs and leads to the object it was made for. This holds for every combination of hyperlinks, drawings, tables, notes, images, charts, shapes, background and header images in a worksheet, and for chartsheets that hold a chart and header images.",
 ["inputs", "configurations"], "every combination and order of objects in a sheet",
 "Tests use a few combinations.",
 [S+"worksheet.rs", S+"packager.rs", S+"drawing.rs", S+"relationship.rs"], [("rel_count and *_relationships vectors", S+"worksheet.rs")], observe=["r:id attributes and .rels parts"])
prop("C23", "Counts equal the number of children written",
 "Wherever the file declares the number of children of an element, that number equals the number of child elements written inside it, for every content: fonts, fills, borders, cell formats, cell styles, dxfs and number formats in the styles, merged ranges, data validations, page breaks (also manualBreakCount), table parts, table columns, metadata and rich value tables, the uniqueCount of the shared string table (its count attribute, the number of references, is not meant), and the vectors of the document properties, whose heading pairs also announce as many titles of each kind as are listed. The point count of a chart cache is the number of cached values, and each point that is written has the position of its value as its index and is written once.",
 ["inputs"], "every content of the counted collections",
 "Tests count a few fixed collections.",
 [S+"styles.rs", S+"worksheet.rs", S+"shared_strings.rs", S+"workbook.rs", S+"chart.rs", S+"table.rs", S+"app.rs"], [("count attributes and the loops that write the items", "src/*.rs"), ("prepare_fonts, prepare_fills, prepare_borders, prepare_num_formats", S+"workbook.rs"), ("write_pt_count, write_pt", S+"chart.rs")], observe=["count attributes", "child elements"])
prop("C24", "Validation always precedes acceptance",
 "Every save method checks the whole workbook before the package is created, and returns the error: repeated worksheet names and repeated table names (regardless of case), chartsheets without a chart, chart ranges and defined names that refer to unknown worksheets. Every public method that inserts an object in a worksheet validates it before it is stored and returns the error: charts and combined charts (they have series; every series has a valid values range, a valid categories range if any, which scatter charts must have; polynomial orders 2-6 and moving average periods 2-4), chart and sparkline data ranges (sheet name, order, limits), sparklines (range set, one-dimensional, or for groups two-dimensional and of the group's size), conditional formats (cell and text rules and formulas set, top values 1-1000 or 1-100 percent, as many icons as the icon set has), merged ranges (more than one cell, no overlap), tables (a row besides the header, no overlap with tables or the autofilter, no repeated column names) and filters (autofilter set, column inside it, a condition given).",
 ["inputs", "configurations"], "every insert and save method, every invalid object",
 "Tests call one insert method with one invalid object.",
 [S+"workbook.rs", S+"worksheet.rs", S+"conditional_format.rs", S+"data_validation.rs", S+"sparkline.rs", S+"chart.rs"], [("validate() calls and save_internal preparation", "src/*.rs")], observe=["return values of insert and save methods"])
prop("C25", "Typed writers and serialized data keep value, position and format",
 "Writing a value through a generic or derived route (write(), write_with_format(), row/column/matrix writers, serialized structs, Option/String/number/date types) stores the same value, at the given row and column and with the given format, as the specific writer for that type would.",
 ["inputs"], "every supported data type and container",
 "Tests write one value of some types.",
 [S+"worksheet.rs", S+"serializer.rs"], [("impl IntoExcelData for ...", S+"worksheet.rs"), ("serialize_* methods", S+"serializer.rs")], observe=["cells of the sheet"])
prop("C26", "Attribute values have the type the format defines",
 "Every attribute whose type the file format fixes carries a value of that type whatever the caller sets (with finite numbers): a boolean is written as 0 or 1 (t or f in VML) and never as another number or word, an integer attribute never gets a fraction, an unsigned one never a sign, a numeric attribute never other text; colours, GUIDs and hashes have their fixed number of hexadecimal digits and fixed cell references have the form of one. A reader that validates the file reports it as corrupt otherwise.",
 ["inputs", "configurations"], "every value that an option can take, for every attribute of the elements that the library writes",
 "A fraction or a wrong word needs a particular value (a font size of 9.2, a first page number of 2) in an option; tests set each option to one or two values.",
 [S+"worksheet.rs", S+"chart.rs", S+"drawing.rs", S+"styles.rs", S+"workbook.rs", S+"table.rs", S+"conditional_format.rs", S+"sparkline.rs", S+"vml.rs"],
 [("attribute vectors passed to xml_start_tag / xml_empty_tag", "src/*.rs"), ("setters that scale or round numbers", "src/*.rs")], observe=["bytes of each part"])
prop("C27", "Index references inside the file agree",
 "Whatever formats, strings, notes, images and rules a workbook has, and however the same ones recur: every number that refers to an entry of a list in the file (the style of a cell, row or column, the font, fill, border and number format of a style, the differential style of a conditional format or table column, the string of a cell, the author of a note, the image in a cell, the id of the axis an axis crosses, the id and priority that tie a conditional format to its extended part) refers to the entry that was made for that very object, and an entry is made exactly once for each distinct one.",
 ["inputs", "configurations", "histories"], "every combination of objects that share formats, strings, authors or images across worksheets, in every order",
 "An index that is one off, stale or taken from the wrong table shows only when several distinct objects meet in a particular order; tests have few of each.",
 [S+"workbook.rs", S+"worksheet.rs", S+"shared_strings_table.rs", S+"styles.rs", S+"packager.rs", S+"comment.rs", S+"chart.rs"],
 [("format_xf_index, format_dxf_index, prepare_fonts, prepare_fills, prepare_borders, prepare_num_formats", S+"workbook.rs"), ("format_xf_index_local, format_dxf_index, get_cell_xf_index, write_conditional_formats", S+"worksheet.rs"), ("shared_string_index", S+"shared_strings_table.rs"), ("add_axis_ids, write_ax_ids", S+"chart.rs")], observe=["bytes of each part"])
prop("C28", "Nothing the file format requires is left out",
 "Whatever options are set and in whatever combination: no element is written without a child element or an attribute that the file format requires in that place (for example the anchor positions and client data of a drawing object, the four sides of a border, the id, name and count attributes, the val attribute of chart properties, the type or operator a rule cannot do without, the cells a rule or sparkline applies to), and every namespace prefix used on an element or attribute is declared on it or on an ancestor.",
 ["inputs", "configurations"], "every combination of options and every order of setting them",
 "An element loses a required part only under a particular combination of options; Excel then reports the file as damaged. Tests compare fixed combinations.",
 [S+"chart.rs", S+"worksheet.rs", S+"drawing.rs", S+"styles.rs", S+"vml.rs", S+"table.rs", S+"conditional_format.rs", S+"workbook.rs", S+"xmlwriter.rs", S+"shared_strings.rs", S+"comment.rs", S+"rich_value.rs"],
 [("write_* functions of every part", S+"chart.rs"), ("write_* functions of every part", S+"worksheet.rs"), ("write_two_cell_anchor, write_pic, write_sp, write_graphic_frame", S+"drawing.rs"), ("assemble_xml_file", S+"styles.rs")], observe=["bytes of each part"])
# --- not decidable with this family (see MANIFEST not_applicable)
prop("C40", "Dates and times convert to the right serial numbers",
 "Every date and time between 1900-01-01 and 9999-12-31 is stored as the serial number that Excel shows as that date and time.",
 ["inputs"], "every date and time", "Tests sample dates.",
 [S+"datetime.rs"], [("ExcelDateTime::to_excel and chrono conversions", S+"datetime.rs")], observe=["v elements"])
prop("C41", "Objects are anchored where their size and offsets say",
 "For every image, chart, shape or comment, the anchor (from/to cells and offsets) spans exactly the object's pixel size given the column widths and row heights.",
 ["inputs"], "every size, offset and set of column widths and row heights", "Tests sample sizes and positions.",
 [S+"worksheet.rs", S+"drawing.rs"], [("position_object_pixels / position_object_emus", S+"worksheet.rs")], observe=["xdr:from and xdr:to"])
prop("C42", "Cell references name the right cell",
 "Every zero-based row and column is converted to the A1 reference of that cell, and back.",
 ["inputs"], "every row and column", "Tests sample columns.",
 [S+"utility.rs"], [("column_number_to_name, row_col_to_cell, chart_range", S+"utility.rs")], observe=["r attributes"])
prop("C43", "Autofit widths fit the displayed text",
 "Autofit sets each column to the width Excel would choose for the widest displayed value in it.",
 ["inputs"], "every content", "Tests sample strings.",
 [S+"worksheet.rs", S+"utility.rs"], [("autofit and pixel_width", S+"worksheet.rs")], observe=["col width"])
prop("C44", "Image headers yield the true size and resolution",
 "For every valid PNG, JPEG, BMP and GIF image, the width, height and resolution read from its header are the image's own.",
 ["inputs"], "every valid image file", "Tests use about thirty image files.",
 [S+"image.rs"], [("process_png/jpg/bmp/gif", S+"image.rs")], observe=["anchors and scale"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
