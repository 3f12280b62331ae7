From f0b472072871feae96f7eac46350c927ad1b1bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 01/57] fix: close each worksheet extension element separately

---
 src/worksheet.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 56fdda5..52e3bc4 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -19682,6 +19682,7 @@ impl Worksheet {
             ];
             xml_start_tag(&mut self.writer, "ext", &attributes);
             self.write_conditional_formattings();
+            xml_end_tag(&mut self.writer, "ext");
         }
 
         // Write the x14:sparklineGroups element.
@@ -19695,10 +19696,9 @@ impl Worksheet {
             ];
             xml_start_tag(&mut self.writer, "ext", &attributes);
             self.write_sparkline_groups();
+            xml_end_tag(&mut self.writer, "ext");
         }
 
-        xml_end_tag(&mut self.writer, "ext");
-
         xml_end_tag(&mut self.writer, "extLst");
     }
 
-- 
2.43.0


From 97d418301d75cf98e5c3f57a29cbf6784159abbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 02/57] fix: write the children of sheetPr in schema order

---
 src/worksheet.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 52e3bc4..0f8b54f 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -17608,15 +17608,15 @@ impl Worksheet {
         {
             xml_start_tag(&mut self.writer, "sheetPr", &attributes);
 
-            // Write the pageSetUpPr element.
-            self.write_page_set_up_pr();
-
             // Write the tabColor element.
             self.write_tab_color();
 
             // Write the outlinePr element.
             self.write_outline_pr();
 
+            // Write the pageSetUpPr element.
+            self.write_page_set_up_pr();
+
             xml_end_tag(&mut self.writer, "sheetPr");
         } else {
             xml_empty_tag(&mut self.writer, "sheetPr", &attributes);
-- 
2.43.0


From d8ed72b0c2b6fe0f85fdb2e63c4aaaf07e09d9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 03/57] fix: use the file format name of the twoDigitTextYear
 ignored error

---
 src/worksheet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 0f8b54f..62c7920 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -20792,7 +20792,7 @@ impl fmt::Display for IgnoreError {
         match self {
             Self::FormulaError => write!(f, "evalError"),
             Self::FormulaDiffers => write!(f, "formula"),
-            Self::TwoDigitTextYear => write!(f, "TwoDigitTextYear"),
+            Self::TwoDigitTextYear => write!(f, "twoDigitTextYear"),
             Self::FormulaOmitsCells => write!(f, "formulaRange"),
             Self::DataValidationError => write!(f, "listDataValidation"),
             Self::NumberStoredAsText => write!(f, "numberStoredAsText"),
-- 
2.43.0


From ebf7ec9681691a0caa083a7092081f681b1532c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 04/57] fix: do not write worksheet only elements to
 chartsheets

---
 src/worksheet.rs | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 62c7920..481cf65 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -17499,16 +17499,6 @@ impl Worksheet {
             self.write_sheet_protection();
         }
 
-        // Write the protectedRange element.
-        if !self.unprotected_ranges.is_empty() {
-            self.write_protected_ranges();
-        }
-
-        // Write the printOptions element.
-        if self.print_options_changed {
-            self.write_print_options();
-        }
-
         // Write the pageMargins element.
         self.write_page_margins();
 
-- 
2.43.0


From 7c93191fa462457a135daf8a4ed06be527e1266e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 05/57] fix: write the legend overlay before the legend
 formatting

---
 src/chart.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index 73b8b82..156d320 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -4870,14 +4870,14 @@ impl Chart {
         // Write the c:layout element.
         self.write_layout(&self.legend.layout.clone());
 
-        // Write the c:spPr formatting element.
-        self.write_sp_pr(&self.legend.format.clone());
-
         // Write the c:overlay element.
         if self.legend.has_overlay {
             self.write_overlay();
         }
 
+        // Write the c:spPr formatting element.
+        self.write_sp_pr(&self.legend.format.clone());
+
         // Pie/Doughnut charts set the "rtl" flag to "0" in the legend font even
         // though "0" is implied. To match Excel output we set it if it hasn't
         // been set by the user.
-- 
2.43.0


From 5e0442adb7d7534dfa077d264895c8d3332d70d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 06/57] fix: do not write category axis tick intervals to date
 axes

---
 src/chart.rs | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index 156d320..c486790 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -4375,16 +4375,6 @@ impl Chart {
         // Write the c:lblOffset element.
         self.write_lbl_offset();
 
-        // Write the c:tickLblSkip element.
-        if x_axis.label_interval > 1 {
-            self.write_tick_lbl_skip(x_axis.label_interval);
-        }
-
-        // Write the c:tickMarkSkip element.
-        if x_axis.tick_interval > 1 {
-            self.write_tick_mark_skip(x_axis.tick_interval);
-        }
-
         // Write the c:majorUnit element.
         if !x_axis.major_unit.is_empty() {
             self.write_major_unit(&x_axis.major_unit);
-- 
2.43.0


From 3eb53c79961813ad6177847550d79855bd544a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 07/57] fix: write the children of chart series in schema order

---
 src/chart.rs | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index c486790..97e2a51 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -3793,6 +3793,11 @@ impl Chart {
             // Write the c:spPr element.
             self.write_sp_pr(&series.format);
 
+            // Write the c:invertIfNegative element.
+            if series.invert_if_negative {
+                self.write_invert_if_negative();
+            }
+
             if let Some(marker) = &series.marker {
                 if !marker.automatic {
                     // Write the c:marker element.
@@ -3800,11 +3805,6 @@ impl Chart {
                 }
             }
 
-            // Write the c:invertIfNegative element.
-            if series.invert_if_negative {
-                self.write_invert_if_negative();
-            }
-
             // Write the point formatting for the series.
             if !series.points.is_empty() {
                 self.write_d_pt(&series.points, max_points);
@@ -3846,11 +3846,6 @@ impl Chart {
             // Write the c:val element.
             self.write_val(&series.value_range);
 
-            if !series.inverted_color.is_auto_or_default() {
-                // Write the c:extLst element for the inverted fill color.
-                self.write_extension_list(series.inverted_color);
-            }
-
             // Write the c:smooth element.
             if self.chart_group_type == ChartType::Line {
                 if let Some(smooth) = series.smooth {
@@ -3860,6 +3855,11 @@ impl Chart {
                 }
             }
 
+            if !series.inverted_color.is_auto_or_default() {
+                // Write the c:extLst element for the inverted fill color.
+                self.write_extension_list(series.inverted_color);
+            }
+
             self.series_index += 1;
 
             xml_end_tag(&mut self.writer, "c:ser");
@@ -3881,13 +3881,6 @@ impl Chart {
 
             self.write_series_title(&series.title);
 
-            if let Some(marker) = &series.marker {
-                if !marker.automatic {
-                    // Write the c:marker element.
-                    self.write_marker(marker);
-                }
-            }
-
             // Add default scatter line formatting to the series data unless it
             // has already been specified by the user.
             if self.chart_type == ChartType::Scatter && series.format.line.is_none() {
@@ -3899,6 +3892,13 @@ impl Chart {
             // Write the c:spPr formatting element.
             self.write_sp_pr(&series.format);
 
+            if let Some(marker) = &series.marker {
+                if !marker.automatic {
+                    // Write the c:marker element.
+                    self.write_marker(marker);
+                }
+            }
+
             // Write the point formatting for the series.
             if !series.points.is_empty() {
                 self.write_d_pt(&series.points, max_points);
-- 
2.43.0


From 7fd828115af3cce7809c698b7c0075deae39fea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 08/57] fix: write the formatting of custom data labels in
 schema order

---
 src/chart.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index 97e2a51..36f7036 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -5033,15 +5033,6 @@ impl Chart {
                 // Write the c:delete element.
                 self.write_delete();
             } else {
-                // Add empty "c:spPr", as required, for Excel compatibility.
-                if !data_label.format.has_formatting() {
-                    if let Some(font) = &data_label.font {
-                        if font.color.is_auto_or_default() {
-                            xml_empty_tag_only(&mut self.writer, "c:spPr");
-                        }
-                    }
-                }
-
                 // If a custom point has a font then it may need to be applied
                 // to the title and/or the label.
                 let mut data_label = data_label.clone();
@@ -5092,8 +5083,16 @@ impl Chart {
             self.write_number_format(&data_label.num_format, false);
         }
 
-        // Write the c:spPr formatting element.
-        self.write_sp_pr(&data_label.format);
+        if data_label.format.has_formatting() {
+            // Write the c:spPr formatting element.
+            self.write_sp_pr(&data_label.format);
+        } else if let Some(font) = &data_label.font {
+            // Add empty "c:spPr" to custom data labels with a font, as
+            // required, for Excel compatibility.
+            if data_label.is_custom && font.color.is_auto_or_default() {
+                xml_empty_tag_only(&mut self.writer, "c:spPr");
+            }
+        }
 
         if let Some(font) = &data_label.font {
             // Write the c:txPr element.
-- 
2.43.0


From ccf20a538e5e08810391141d5b459524e429d6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 09/57] fix: only write the leader lines for the group of data
 labels

---
 src/chart.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index 36f7036..4ff4b61 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -5009,6 +5009,19 @@ impl Chart {
         // Write the main elements of a data label.
         self.write_data_label(data_label);
 
+        // The leader lines are a property of the group of labels.
+        if data_label.show_leader_lines {
+            match self.chart_group_type {
+                // Write the c:showLeaderLines element.
+                ChartType::Pie | ChartType::Doughnut => {
+                    self.write_show_leader_lines_2007();
+                }
+                _ => {
+                    self.write_show_leader_lines_2015();
+                }
+            }
+        }
+
         xml_end_tag(&mut self.writer, "c:dLbls");
     }
 
@@ -5140,18 +5153,6 @@ impl Chart {
             // Write the c:separator element.
             self.write_separator(data_label.separator);
         }
-
-        if data_label.show_leader_lines {
-            match self.chart_group_type {
-                // Write the c:showLeaderLines element.
-                ChartType::Pie | ChartType::Doughnut => {
-                    self.write_show_leader_lines_2007();
-                }
-                _ => {
-                    self.write_show_leader_lines_2015();
-                }
-            }
-        }
     }
 
     // Write the <c:trendline> element.
-- 
2.43.0


From 97a1e71bd1dc567c85f3cbedc2ae535d7db8ded3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:24 +0000
Subject: [PATCH 10/57] fix: check the range before collapsing grouped rows and
 columns

The row or column after the group was computed, and marked as collapsed,
before the range was checked.
---
 src/worksheet.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 481cf65..b5223b7 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -6988,6 +6988,16 @@ impl Worksheet {
         first_row: RowNum,
         last_row: RowNum,
     ) -> Result<&mut Worksheet, XlsxError> {
+        // Check rows are in the allowed range.
+        if !self.check_dimensions_only(first_row, 0) || !self.check_dimensions_only(last_row, 0) {
+            return Err(XlsxError::RowColumnLimitError);
+        }
+
+        // Check order of first/last values.
+        if first_row > last_row {
+            return Err(XlsxError::RowColumnOrderError);
+        }
+
         // Set the collapsed property to the row after the collapsed group.
         self.set_collapsed_row(last_row + 1)?;
 
@@ -7362,6 +7372,16 @@ impl Worksheet {
         first_col: ColNum,
         last_col: ColNum,
     ) -> Result<&mut Worksheet, XlsxError> {
+        // Check columns are in the allowed range.
+        if !self.check_dimensions_only(0, first_col) || !self.check_dimensions_only(0, last_col) {
+            return Err(XlsxError::RowColumnLimitError);
+        }
+
+        // Check order of first/last values.
+        if first_col > last_col {
+            return Err(XlsxError::RowColumnOrderError);
+        }
+
         // Set the collapsed property to the column after the collapsed group.
         self.set_collapsed_column(last_col + 1)?;
 
-- 
2.43.0


From 8659684b0ef1510b478876742408ff02e544b891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:24 +0000
Subject: [PATCH 11/57] fix: check the limits of cells that are not written

Empty strings, None and empty matrix items were accepted at any row and
column, and the loops of write_row() and the like could overflow.
---
 src/worksheet.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index b5223b7..0ed5eb0 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -2576,6 +2576,11 @@ impl Worksheet {
     {
         let mut row = row;
         for item in data {
+            // Check row and col are in the allowed range, also for empty items.
+            if !self.check_dimensions_only(row, col) {
+                return Err(XlsxError::RowColumnLimitError);
+            }
+
             self.write_row(row, col, item)?;
             row += 1;
         }
@@ -2661,6 +2666,11 @@ impl Worksheet {
     {
         let mut col = col;
         for item in data {
+            // Check row and col are in the allowed range, also for empty items.
+            if !self.check_dimensions_only(row, col) {
+                return Err(XlsxError::RowColumnLimitError);
+            }
+
             self.write_column(row, col, item)?;
             col += 1;
         }
@@ -15062,6 +15072,11 @@ impl Worksheet {
         string: String,
         format: Option<&Format>,
     ) -> Result<&mut Worksheet, XlsxError> {
+        // Check row and col are in the allowed range, also for empty strings.
+        if !self.check_dimensions_only(row, col) {
+            return Err(XlsxError::RowColumnLimitError);
+        }
+
         // Empty strings are ignored by Excel unless they have a format in which
         // case they are treated as a blank cell.
         if string.is_empty() {
@@ -15127,6 +15142,11 @@ impl Worksheet {
         raw_string: &str,
         format: Option<&Format>,
     ) -> Result<&mut Worksheet, XlsxError> {
+        // Check row and col are in the allowed range, also for empty strings.
+        if !self.check_dimensions_only(row, col) {
+            return Err(XlsxError::RowColumnLimitError);
+        }
+
         // Empty strings are ignored by Excel unless they have a format in which
         // case they are treated as a blank cell.
         if string.is_empty() {
@@ -20372,7 +20392,8 @@ impl<T: IntoExcelData> IntoExcelData for Option<T> {
     ) -> Result<&mut Worksheet, XlsxError> {
         match self {
             Some(data) => worksheet.write(row, col, data),
-            None => Ok(worksheet),
+            None if worksheet.check_dimensions_only(row, col) => Ok(worksheet),
+            None => Err(XlsxError::RowColumnLimitError),
         }
     }
 
-- 
2.43.0


From 3944df7a10474e156b26d6e2ddd6e281b9013ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:28 +0000
Subject: [PATCH 12/57] fix: only create temporary files for constant memory
 worksheets

With the constant_memory feature every worksheet, including the one that
is added when an empty workbook is saved, created a temporary file in the
default directory, and panicked if that wasn't possible.
---
 src/packager.rs  | 20 +++++++++++---------
 src/workbook.rs  | 24 ++++++++++++------------
 src/worksheet.rs | 35 +++++++++++++++--------------------
 3 files changed, 38 insertions(+), 41 deletions(-)

diff --git a/src/packager.rs b/src/packager.rs
index bdda890..18310f8 100644
--- a/src/packager.rs
+++ b/src/packager.rs
@@ -457,16 +457,18 @@ impl<W: Write + Seek + Send> Packager<W> {
                 // We also need to flush the last remaining row.
                 worksheet.flush_last_row();
 
-                worksheet.file_writer.rewind().unwrap();
-                let mut reader = BufReader::new(worksheet.file_writer.get_ref());
-                loop {
-                    let buffer = reader.fill_buf().unwrap();
-                    let length = buffer.len();
-                    if length == 0 {
-                        break;
+                if let Some(file_writer) = worksheet.file_writer.as_mut() {
+                    file_writer.rewind().unwrap();
+                    let mut reader = BufReader::new(file_writer.get_ref());
+                    loop {
+                        let buffer = reader.fill_buf().unwrap();
+                        let length = buffer.len();
+                        if length == 0 {
+                            break;
+                        }
+                        self.zip.write_all(buffer).unwrap();
+                        reader.consume(length);
                     }
-                    self.zip.write_all(buffer).unwrap();
-                    reader.consume(length);
                 }
             }
 
diff --git a/src/workbook.rs b/src/workbook.rs
index 3d40929..55f8823 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -563,9 +563,7 @@ impl Workbook {
         let mut worksheet = Worksheet::new();
         worksheet.set_name(&name).unwrap();
 
-        if let Some(tempdir) = &self.tempdir {
-            worksheet.file_writer = BufWriter::new(tempfile_in(tempdir).unwrap());
-        }
+        worksheet.file_writer = Some(self.new_file_writer());
 
         worksheet.use_inline_strings = true;
         worksheet.use_constant_memory = true;
@@ -636,9 +634,7 @@ impl Workbook {
         let mut worksheet = Worksheet::new();
         worksheet.set_name(&name).unwrap();
 
-        if let Some(tempdir) = &self.tempdir {
-            worksheet.file_writer = BufWriter::new(tempfile_in(tempdir).unwrap());
-        }
+        worksheet.file_writer = Some(self.new_file_writer());
 
         worksheet.use_inline_strings = false;
         worksheet.use_constant_memory = true;
@@ -684,9 +680,7 @@ impl Workbook {
     pub fn new_worksheet_with_constant_memory(&mut self) -> Worksheet {
         let mut worksheet = Worksheet::new();
 
-        if let Some(tempdir) = &self.tempdir {
-            worksheet.file_writer = BufWriter::new(tempfile_in(tempdir).unwrap());
-        }
+        worksheet.file_writer = Some(self.new_file_writer());
 
         worksheet.use_inline_strings = true;
         worksheet.use_constant_memory = true;
@@ -726,9 +720,7 @@ impl Workbook {
     pub fn new_worksheet_with_low_memory(&mut self) -> Worksheet {
         let mut worksheet = Worksheet::new();
 
-        if let Some(tempdir) = &self.tempdir {
-            worksheet.file_writer = BufWriter::new(tempfile_in(tempdir).unwrap());
-        }
+        worksheet.file_writer = Some(self.new_file_writer());
 
         worksheet.use_inline_strings = false;
         worksheet.use_constant_memory = true;
@@ -810,6 +802,14 @@ impl Workbook {
         Ok(self)
     }
 
+    // Create the temporary file used by a constant memory worksheet.
+    #[cfg(feature = "constant_memory")]
+    fn new_file_writer(&self) -> BufWriter<File> {
+        let tempdir = self.tempdir.clone().unwrap_or_else(std::env::temp_dir);
+
+        BufWriter::new(tempfile_in(tempdir).unwrap())
+    }
+
     /// Add a new chartsheet to a workbook.
     ///
     /// The `add_chartsheet()` method adds a new "chartsheet" [`Worksheet`] to a
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 0ed5eb0..0842633 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -1356,9 +1356,6 @@ use std::mem;
 use std::sync::{Arc, Mutex, RwLock};
 use std::{cmp, fmt};
 
-#[cfg(feature = "constant_memory")]
-use tempfile::tempfile_in;
-
 #[cfg(feature = "constant_memory")]
 use std::io::BufWriter;
 
@@ -1632,7 +1629,7 @@ pub struct Worksheet {
     outline_symbols_left: bool,
 
     #[cfg(feature = "constant_memory")]
-    pub(crate) file_writer: BufWriter<File>,
+    pub(crate) file_writer: Option<BufWriter<File>>,
 
     #[cfg(feature = "constant_memory")]
     write_ahead: BTreeMap<RowNum, BTreeMap<ColNum, CellType>>,
@@ -1729,9 +1726,6 @@ impl Worksheet {
             top_cell: (0, 0),
         };
 
-        #[cfg(feature = "constant_memory")]
-        let file_writer = BufWriter::new(tempfile_in(std::env::temp_dir()).unwrap());
-
         Worksheet {
             writer,
             name: String::new(),
@@ -1873,7 +1867,7 @@ impl Worksheet {
             has_workbook_global_sst: false,
 
             #[cfg(feature = "constant_memory")]
-            file_writer,
+            file_writer: None,
 
             #[cfg(feature = "constant_memory")]
             write_ahead: BTreeMap::new(),
@@ -18722,7 +18716,7 @@ impl Worksheet {
                 CellType::Number { number, xf_index } | CellType::DateTime { number, xf_index } => {
                     let xf_index = self.get_cell_xf_index(*xf_index, row_options, col_num);
                     Self::write_number_cell(
-                        &mut self.file_writer,
+                        self.file_writer.as_mut().unwrap(),
                         current_row + 1,
                         col_name,
                         *number,
@@ -18738,7 +18732,7 @@ impl Worksheet {
                     if let Some(string_id) = string_id {
                         let xf_index = self.get_cell_xf_index(*xf_index, row_options, col_num);
                         Self::write_string_cell(
-                            &mut self.file_writer,
+                            self.file_writer.as_mut().unwrap(),
                             current_row + 1,
                             col_name,
                             *string_id,
@@ -18752,7 +18746,7 @@ impl Worksheet {
                 } => {
                     let xf_index = self.get_cell_xf_index(*xf_index, row_options, col_num);
                     Self::write_inline_rich_string_cell(
-                        &mut self.file_writer,
+                        self.file_writer.as_mut().unwrap(),
                         current_row + 1,
                         col_name,
                         string,
@@ -18765,7 +18759,7 @@ impl Worksheet {
                 } => {
                     let xf_index = self.get_cell_xf_index(*xf_index, row_options, col_num);
                     Self::write_inline_string_cell(
-                        &mut self.file_writer,
+                        self.file_writer.as_mut().unwrap(),
                         current_row + 1,
                         col_name,
                         string,
@@ -18780,7 +18774,7 @@ impl Worksheet {
                 } => {
                     let xf_index = self.get_cell_xf_index(*xf_index, row_options, col_num);
                     Self::write_formula_cell(
-                        &mut self.file_writer,
+                        self.file_writer.as_mut().unwrap(),
                         current_row + 1,
                         col_name,
                         formula,
@@ -18798,7 +18792,7 @@ impl Worksheet {
                 } => {
                     let xf_index = self.get_cell_xf_index(*xf_index, row_options, col_num);
                     Self::write_array_formula_cell(
-                        &mut self.file_writer,
+                        self.file_writer.as_mut().unwrap(),
                         current_row + 1,
                         col_name,
                         formula,
@@ -18812,7 +18806,7 @@ impl Worksheet {
                 CellType::Blank { xf_index } => {
                     let xf_index = self.get_cell_xf_index(*xf_index, row_options, col_num);
                     Self::write_blank_cell(
-                        &mut self.file_writer,
+                        self.file_writer.as_mut().unwrap(),
                         current_row + 1,
                         col_name,
                         xf_index,
@@ -18823,7 +18817,7 @@ impl Worksheet {
                     let xf_index = self.get_cell_xf_index(*xf_index, row_options, col_num);
 
                     Self::write_boolean_cell(
-                        &mut self.file_writer,
+                        self.file_writer.as_mut().unwrap(),
                         current_row + 1,
                         col_name,
                         *boolean,
@@ -18835,7 +18829,7 @@ impl Worksheet {
                     let xf_index = self.get_cell_xf_index(*xf_index, row_options, col_num);
                     let image_id = self.global_embedded_image_indices[*value as usize];
                     Self::write_error_cell(
-                        &mut self.file_writer,
+                        self.file_writer.as_mut().unwrap(),
                         current_row + 1,
                         col_name,
                         image_id,
@@ -18844,7 +18838,7 @@ impl Worksheet {
                 }
             }
         }
-        xml_end_tag(&mut self.file_writer, "row");
+        xml_end_tag(self.file_writer.as_mut().unwrap(), "row");
 
         // Swap back in changed rows data.
         mem::swap(&mut temp_changed_rows, &mut self.changed_rows);
@@ -19020,10 +19014,11 @@ impl Worksheet {
             attributes.push(("customHeight", "1".to_string()));
         }
 
+        let file_writer = self.file_writer.as_mut().unwrap();
         if has_data {
-            xml_start_tag(&mut self.file_writer, "row", &attributes);
+            xml_start_tag(file_writer, "row", &attributes);
         } else {
-            xml_empty_tag(&mut self.file_writer, "row", &attributes);
+            xml_empty_tag(file_writer, "row", &attributes);
         }
     }
 
-- 
2.43.0


From f7767e29e4839be1424a5bb7e0517ec9f07dd756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:08 +0000
Subject: [PATCH 13/57] fix: return I/O errors of the constant memory data
 instead of panicking

---
 src/packager.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/packager.rs b/src/packager.rs
index 18310f8..18e67ef 100644
--- a/src/packager.rs
+++ b/src/packager.rs
@@ -458,15 +458,15 @@ impl<W: Write + Seek + Send> Packager<W> {
                 worksheet.flush_last_row();
 
                 if let Some(file_writer) = worksheet.file_writer.as_mut() {
-                    file_writer.rewind().unwrap();
+                    file_writer.rewind()?;
                     let mut reader = BufReader::new(file_writer.get_ref());
                     loop {
-                        let buffer = reader.fill_buf().unwrap();
+                        let buffer = reader.fill_buf()?;
                         let length = buffer.len();
                         if length == 0 {
                             break;
                         }
-                        self.zip.write_all(buffer).unwrap();
+                        self.zip.write_all(buffer)?;
                         reader.consume(length);
                     }
                 }
-- 
2.43.0


From 4d2e4614996829d62120dcf1cf1c07508d7feb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:09 +0000
Subject: [PATCH 14/57] fix: apply the format of dynamic functions written as
 formulas

---
 src/worksheet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 0842633..9a18fb6 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -15202,7 +15202,7 @@ impl Worksheet {
     ) -> Result<&mut Worksheet, XlsxError> {
         // Transfer to dynamic formula handling function.
         if formula.has_dynamic_function {
-            return self.store_array_formula(row, col, row, col, formula, None, true);
+            return self.store_array_formula(row, col, row, col, formula, format, true);
         }
 
         // Check row and col are in the allowed range.
-- 
2.43.0


From 603c8a51704089a1531dec9b7742c8ffb7616e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:11 +0000
Subject: [PATCH 15/57] fix: keep the format of rows and columns that already
 have properties

---
 src/worksheet.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 9a18fb6..e8e3f01 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -6595,7 +6595,10 @@ impl Worksheet {
 
         // Update an existing row metadata object or create a new one.
         match self.changed_rows.get_mut(&row) {
-            Some(row_options) => row_options.xf_index = xf_index,
+            Some(row_options) => {
+                row_options.xf_index = xf_index;
+                row_options.format = Some(format.clone());
+            }
             None => {
                 let row_options = RowOptions {
                     height: self.user_default_row_height,
@@ -8078,7 +8081,10 @@ impl Worksheet {
 
         // Update an existing col metadata object or create a new one.
         match self.changed_cols.get_mut(&col) {
-            Some(col_options) => col_options.xf_index = xf_index,
+            Some(col_options) => {
+                col_options.xf_index = xf_index;
+                col_options.format = Some(format.clone());
+            }
             None => {
                 let col_options = ColOptions {
                     width: DEFAULT_COL_WIDTH,
-- 
2.43.0


From 9be0b8edd8563f94b1269a734be05f74f4242ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:58 +0000
Subject: [PATCH 16/57] fix: look up a format again before adding it under the
 write lock

---
 src/workbook.rs  | 7 +++----
 src/worksheet.rs | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/workbook.rs b/src/workbook.rs
index 55f8823..45887aa 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2529,10 +2529,9 @@ impl Workbook {
 
         // Add the new format and give it an index.
         let mut xf_indices = self.xf_indices.write().expect("RwLock poisoned");
-        let xf_index = xf_indices.len() as u32;
-        xf_indices.insert(format.clone(), xf_index);
-
-        xf_index
+        // Another thread may have added the format in the meantime.
+        let next_index = xf_indices.len() as u32;
+        *xf_indices.entry(format.clone()).or_insert(next_index)
     }
 
     fn format_dxf_index(&mut self, format: &Format) -> u32 {
diff --git a/src/worksheet.rs b/src/worksheet.rs
index e8e3f01..b175cc8 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16047,10 +16047,9 @@ impl Worksheet {
 
         // Add the new format and give it an index.
         let mut xf_indices = self.workbook_xf_indices.write().expect("RwLock poisoned");
-        let xf_index = xf_indices.len() as u32;
-        xf_indices.insert(format.clone(), xf_index);
-
-        xf_index
+        // Another thread may have added the format in the meantime.
+        let next_index = xf_indices.len() as u32;
+        *xf_indices.entry(format.clone()).or_insert(next_index)
     }
 
     // Look up the Format index from the worksheet/local format index table.
-- 
2.43.0


From bbcb155982920180cdd25e296ae7e615872ec73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:58 +0000
Subject: [PATCH 17/57] fix: let unset_hyperlink_style() unset the hyperlink
 style

---
 src/format.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/format.rs b/src/format.rs
index 599a63b..436a666 100644
--- a/src/format.rs
+++ b/src/format.rs
@@ -2415,7 +2415,7 @@ impl Format {
 
     /// Unset the hyperlink style. Doesn't reset the other properties.
     pub fn unset_hyperlink_style(mut self) -> Format {
-        self.font.is_hyperlink = true;
+        self.font.is_hyperlink = false;
 
         self
     }
-- 
2.43.0


From 143eb70f82862c6db02f605ac06e189faab19f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:59 +0000
Subject: [PATCH 18/57] fix: keep the hyperlink style when merging formats

---
 src/format.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/format.rs b/src/format.rs
index 436a666..7ea7895 100644
--- a/src/format.rs
+++ b/src/format.rs
@@ -2566,6 +2566,7 @@ impl Format {
         self.font.extend |= other.extend;
         self.font.condense |= other.condense;
         self.font.strikethrough |= other.strikethrough;
+        self.font.is_hyperlink |= other.is_hyperlink;
 
         if self.font.family == default.family {
             self.font.family = other.family;
-- 
2.43.0


From 7b15c7408f39d16b8af6a11b4cf62d78e2cfe847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:59 +0000
Subject: [PATCH 19/57] fix: write the strikethrough and right to left
 properties of chart and shape fonts

---
 src/chart.rs   |  4 ++++
 src/drawing.rs | 27 ++++++++++++++++++---------
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index 4ff4b61..ec26604 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -5770,6 +5770,10 @@ impl Chart {
             attributes.push(("u", "sng".to_string()));
         }
 
+        if font.strikethrough {
+            attributes.push(("strike", "sngStrike".to_string()));
+        }
+
         if font.has_baseline {
             attributes.push(("baseline", "0".to_string()));
         }
diff --git a/src/drawing.rs b/src/drawing.rs
index 90cdda7..65c188c 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -8,6 +8,7 @@ mod tests;
 
 use std::io::Cursor;
 
+use crate::utility::ToXmlBoolean;
 use crate::xmlwriter::{
     xml_data_element_only, xml_declaration, xml_empty_tag, xml_empty_tag_only, xml_end_tag,
     xml_start_tag, xml_start_tag_only,
@@ -1114,6 +1115,10 @@ impl Drawing {
             attributes.push(("u", "sng".to_string()));
         }
 
+        if font.strikethrough {
+            attributes.push(("strike", "sngStrike".to_string()));
+        }
+
         if font.has_baseline {
             attributes.push(("baseline", "0".to_string()));
         }
@@ -1167,17 +1172,21 @@ impl Drawing {
 
     // Write the <a:rPr> element for horizontal text alignment.
     fn write_text_alignment(&mut self, shape: &Shape) {
+        let mut attributes = vec![];
+
         match shape.text_options.horizontal_alignment {
             ShapeTextHorizontalAlignment::Default => {}
-            ShapeTextHorizontalAlignment::Left => {
-                xml_empty_tag(&mut self.writer, "a:pPr", &[("algn", "l")]);
-            }
-            ShapeTextHorizontalAlignment::Center => {
-                xml_empty_tag(&mut self.writer, "a:pPr", &[("algn", "ctr")]);
-            }
-            ShapeTextHorizontalAlignment::Right => {
-                xml_empty_tag(&mut self.writer, "a:pPr", &[("algn", "r")]);
-            }
+            ShapeTextHorizontalAlignment::Left => attributes.push(("algn", "l".to_string())),
+            ShapeTextHorizontalAlignment::Center => attributes.push(("algn", "ctr".to_string())),
+            ShapeTextHorizontalAlignment::Right => attributes.push(("algn", "r".to_string())),
+        }
+
+        if let Some(right_to_left) = shape.font.right_to_left {
+            attributes.push(("rtl", right_to_left.to_xml_bool()));
+        }
+
+        if !attributes.is_empty() {
+            xml_empty_tag(&mut self.writer, "a:pPr", &attributes);
         }
     }
 
-- 
2.43.0


From 9ee760b1f969a6c9af0574a82f59e12cf9eb7586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:40 +0000
Subject: [PATCH 20/57] fix: write serialized tables in a reproducible order

---
 src/serializer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/serializer.rs b/src/serializer.rs
index db42d67..4219734 100644
--- a/src/serializer.rs
+++ b/src/serializer.rs
@@ -2081,6 +2081,9 @@ impl SerializerState {
             }
         }
 
+        // Sort the tables by position since the HashMap order is arbitrary.
+        tables.sort_by_key(|table| (table.0, table.1));
+
         tables
     }
 }
-- 
2.43.0


From 5b3d7d13fe7275b485cd4b597fbc3f4e682aa823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:40 +0000
Subject: [PATCH 21/57] fix: return an error instead of a panic for an empty
 defined name

---
 src/workbook.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/workbook.rs b/src/workbook.rs
index 45887aa..84cb750 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -1552,7 +1552,7 @@ impl Workbook {
 
         // Excel requires that the name starts with a letter or underscore.
         // Also, backspace is allowed but undocumented by Excel.
-        if !defined_name.name.chars().next().unwrap().is_alphabetic()
+        if !defined_name.name.starts_with(char::is_alphabetic)
             && !defined_name.name.starts_with('_')
             && !defined_name.name.starts_with('\\')
         {
-- 
2.43.0


From 8313a2685f0a01c55ccfc5d72dcf907436ce19e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:40 +0000
Subject: [PATCH 22/57] fix: fill the data caches of secondary axis titles

---
 src/workbook.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/workbook.rs b/src/workbook.rs
index 84cb750..35b4a1e 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2438,6 +2438,8 @@ impl Workbook {
         Self::insert_to_chart_cache(&chart.title.range, chart_caches);
         Self::insert_to_chart_cache(&chart.x_axis.title.range, chart_caches);
         Self::insert_to_chart_cache(&chart.y_axis.title.range, chart_caches);
+        Self::insert_to_chart_cache(&chart.x2_axis.title.range, chart_caches);
+        Self::insert_to_chart_cache(&chart.y2_axis.title.range, chart_caches);
 
         for series in &chart.series {
             Self::insert_to_chart_cache(&series.title.range, chart_caches);
@@ -2468,6 +2470,8 @@ impl Workbook {
         Self::update_range_cache(&mut chart.title.range, chart_caches);
         Self::update_range_cache(&mut chart.x_axis.title.range, chart_caches);
         Self::update_range_cache(&mut chart.y_axis.title.range, chart_caches);
+        Self::update_range_cache(&mut chart.x2_axis.title.range, chart_caches);
+        Self::update_range_cache(&mut chart.y2_axis.title.range, chart_caches);
 
         for series in &mut chart.series {
             Self::update_range_cache(&mut series.title.range, chart_caches);
-- 
2.43.0


From d42e8736626f16079038caa06acef4b710eb9208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:40 +0000
Subject: [PATCH 23/57] fix: apply the string length limit to the text of a
 rich string

---
 src/worksheet.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index b175cc8..58a8c02 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -15161,8 +15161,9 @@ impl Worksheet {
             return Err(XlsxError::RowColumnLimitError);
         }
 
-        //  Check that the string is < Excel limit of 32767 chars.
-        if string.chars().count() > MAX_STRING_LEN {
+        //  Check that the string is < Excel limit of 32767 chars. The limit
+        //  applies to the text and not to the XML of the formatted runs.
+        if raw_string.chars().count() > MAX_STRING_LEN {
             return Err(XlsxError::MaxStringLengthExceeded);
         }
 
-- 
2.43.0


From eb954bd701b4398886b3f99ac17601e34fc23057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:40 +0000
Subject: [PATCH 24/57] fix: keep one data cache entry per column for missing
 rows

---
 src/worksheet.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 58a8c02..8d0e2f1 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16977,7 +16977,11 @@ impl Worksheet {
                         }
                     }
                 }
-                None => data.push(String::new()),
+                None => {
+                    for _ in first_col..=last_col {
+                        data.push(String::new());
+                    }
+                }
             }
         }
 
-- 
2.43.0


From d2a18c7547befd0e1c7a89f77ebfacb8a4019451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:36 +0000
Subject: [PATCH 25/57] fix: check merged ranges for overlaps before writing
 their cells

---
 src/worksheet.rs | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 8d0e2f1..e8c55f7 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -4992,6 +4992,24 @@ impl Worksheet {
             return Err(XlsxError::MergeRangeSingleCell);
         }
 
+        // Create a cell range for storage and range testing.
+        let cell_range = CellRange::new(first_row, first_col, last_row, last_col);
+
+        // Check if the merged range overlaps any previous merged range. This is
+        // a major error in Excel. Note, the ranges are stored in a separate Vec
+        // to the cells to cut down on storage size.
+        for row in first_row..=last_row {
+            for col in first_col..=last_col {
+                if let Some(index) = self.merged_cells.get(&(row, col)) {
+                    let previous_cell_range = self.merged_ranges.get(*index).unwrap();
+                    return Err(XlsxError::MergeRangeOverlaps(
+                        cell_range.to_error_string(),
+                        previous_cell_range.to_error_string(),
+                    ));
+                }
+            }
+        }
+
         // Write the first cell in the range.
         self.write_string_with_format(first_row, first_col, string, format)?;
 
@@ -5010,25 +5028,11 @@ impl Worksheet {
         }
         self.set_writing_ahead(false);
 
-        // Create a cell range for storage and range testing.
-        let cell_range = CellRange::new(first_row, first_col, last_row, last_col);
-
-        // Check if the merged range overlaps any previous merged range. This is
-        // a major error in Excel. Note, the ranges are stored in a separate Vec
-        // to the cells to cut down on storage size.
+        // Store the cells of the merged range for the overlap check.
         let new_index = self.merged_ranges.len();
         for row in first_row..=last_row {
             for col in first_col..=last_col {
-                match self.merged_cells.get_mut(&(row, col)) {
-                    Some(index) => {
-                        let previous_cell_range = self.merged_ranges.get(*index).unwrap();
-                        return Err(XlsxError::MergeRangeOverlaps(
-                            cell_range.to_error_string(),
-                            previous_cell_range.to_error_string(),
-                        ));
-                    }
-                    None => self.merged_cells.insert((row, col), new_index),
-                };
+                self.merged_cells.insert((row, col), new_index);
             }
         }
 
-- 
2.43.0


From e4644aa71ef55096c1cd9ceb974075829caf83f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:36 +0000
Subject: [PATCH 26/57] fix: check for overlaps before changing the autofilter

---
 src/worksheet.rs | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index e8c55f7..1a095d6 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -8464,23 +8464,11 @@ impl Worksheet {
             return Err(XlsxError::RowColumnOrderError);
         }
 
-        // Store the defined name information.
-        self.autofilter_defined_name.in_use = true;
-        self.autofilter_defined_name.name_type = DefinedNameType::Autofilter;
-        self.autofilter_defined_name.first_row = first_row;
-        self.autofilter_defined_name.first_col = first_col;
-        self.autofilter_defined_name.last_row = last_row;
-        self.autofilter_defined_name.last_col = last_col;
-
         let autofilter_area = CellRange::new(first_row, first_col, last_row, last_col);
 
-        // Clear any previous filters.
-        self.filter_conditions = BTreeMap::new();
-
-        // Store the cells with the autofilter dropdown for the autofit calc.
+        // Check that the worksheet autofilter doesn't overlap a table
+        // autofilter.
         for col in first_col..=last_col {
-            // Check that the worksheet autofilter doesn't overlap a table
-            // autofilter.
             let filter_data = self.cells_with_autofilter.get(&(first_row, col));
             if let Some((filter_type, filter_range)) = filter_data {
                 if *filter_type == FilterType::Table {
@@ -8490,7 +8478,21 @@ impl Worksheet {
                     ));
                 }
             }
+        }
 
+        // Store the defined name information.
+        self.autofilter_defined_name.in_use = true;
+        self.autofilter_defined_name.name_type = DefinedNameType::Autofilter;
+        self.autofilter_defined_name.first_row = first_row;
+        self.autofilter_defined_name.first_col = first_col;
+        self.autofilter_defined_name.last_row = last_row;
+        self.autofilter_defined_name.last_col = last_col;
+
+        // Clear any previous filters.
+        self.filter_conditions = BTreeMap::new();
+
+        // Store the cells with the autofilter dropdown for the autofit calc.
+        for col in first_col..=last_col {
             self.cells_with_autofilter.insert(
                 (first_row, col),
                 (FilterType::Worksheet, autofilter_area.clone()),
-- 
2.43.0


From 3ed81152180362380bf8abc821ca4ca8181e1a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:36 +0000
Subject: [PATCH 27/57] fix: check tables for overlaps before writing their
 cells

---
 src/worksheet.rs | 64 +++++++++++++++++++++++++++---------------------
 1 file changed, 36 insertions(+), 28 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 1a095d6..2260f1c 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -8819,6 +8819,40 @@ impl Worksheet {
         table.cell_range = CellRange::new(first_row, first_col, last_row, last_col);
         table.initialize_columns(&default_headers)?;
 
+        // Create a cell range for storage and range testing.
+        let cell_range = CellRange::new(first_row, first_col, last_row, last_col);
+
+        // Check if the table range overlaps any previous table range. This is a
+        // major error in Excel. Note, the ranges are stored in a separate Vec
+        // to the cells to cut down on storage size.
+        for row in first_row..=last_row {
+            for col in first_col..=last_col {
+                if let Some(index) = self.table_cells.get(&(row, col)) {
+                    let previous_cell_range = self.table_ranges.get(*index).unwrap();
+                    return Err(XlsxError::TableRangeOverlaps(
+                        cell_range.to_error_string(),
+                        previous_cell_range.to_error_string(),
+                    ));
+                }
+            }
+        }
+
+        // Check that the table autofilter doesn't overlap the worksheet
+        // autofilter.
+        if table.show_autofilter {
+            for col in first_col..=last_col {
+                let filter_data = self.cells_with_autofilter.get(&(first_row, col));
+                if let Some((filter_type, filter_range)) = filter_data {
+                    if *filter_type == FilterType::Worksheet {
+                        return Err(XlsxError::AutofilterRangeOverlaps(
+                            table.cell_range.to_error_string(),
+                            filter_range.to_error_string(),
+                        ));
+                    }
+                }
+            }
+        }
+
         let first_data_row = table.first_data_row();
         let last_data_row = table.last_data_row();
 
@@ -8884,43 +8918,17 @@ impl Worksheet {
             self.set_writing_ahead(false);
         }
 
-        // Create a cell range for storage and range testing.
-        let cell_range = CellRange::new(first_row, first_col, last_row, last_col);
-
-        // Check if the table range overlaps any previous table range. This is a
-        // major error in Excel. Note, the ranges are stored in a separate Vec
-        // to the cells to cut down on storage size.
+        // Store the cells of the table for the overlap check.
         let new_index = self.table_ranges.len();
         for row in first_row..=last_row {
             for col in first_col..=last_col {
-                match self.table_cells.get_mut(&(row, col)) {
-                    Some(index) => {
-                        let previous_cell_range = self.table_ranges.get(*index).unwrap();
-                        return Err(XlsxError::TableRangeOverlaps(
-                            cell_range.to_error_string(),
-                            previous_cell_range.to_error_string(),
-                        ));
-                    }
-                    None => self.table_cells.insert((row, col), new_index),
-                };
+                self.table_cells.insert((row, col), new_index);
             }
         }
 
         // Store the cells with the autofilter dropdown for the autofit calc.
         if table.show_autofilter {
             for col in first_col..=last_col {
-                // Check that the table autofilter doesn't overlap the worksheet
-                // autofilter.
-                let filter_data = self.cells_with_autofilter.get(&(first_row, col));
-                if let Some((filter_type, filter_range)) = filter_data {
-                    if *filter_type == FilterType::Worksheet {
-                        return Err(XlsxError::AutofilterRangeOverlaps(
-                            table.cell_range.to_error_string(),
-                            filter_range.to_error_string(),
-                        ));
-                    }
-                }
-
                 self.cells_with_autofilter.insert(
                     (first_row, col),
                     (FilterType::Table, table.cell_range.clone()),
-- 
2.43.0


From fab98b394b24d3a9c0d9d09fb2b4227cb416a502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:36 +0000
Subject: [PATCH 28/57] fix: check the columns of column ranges before changing
 any of them

---
 src/worksheet.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 2260f1c..90a9a35 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -8202,6 +8202,11 @@ impl Worksheet {
         last_col: ColNum,
         width: impl Into<f64>,
     ) -> Result<&mut Worksheet, XlsxError> {
+        // Check columns are in the allowed range without updating dimensions.
+        if first_col >= COL_MAX || last_col >= COL_MAX {
+            return Err(XlsxError::RowColumnLimitError);
+        }
+
         // Check order of first/last values.
         if first_col > last_col {
             return Err(XlsxError::RowColumnOrderError);
@@ -8240,6 +8245,11 @@ impl Worksheet {
         last_col: ColNum,
         width: u16,
     ) -> Result<&mut Worksheet, XlsxError> {
+        // Check columns are in the allowed range without updating dimensions.
+        if first_col >= COL_MAX || last_col >= COL_MAX {
+            return Err(XlsxError::RowColumnLimitError);
+        }
+
         // Check order of first/last values.
         if first_col > last_col {
             return Err(XlsxError::RowColumnOrderError);
@@ -8323,6 +8333,11 @@ impl Worksheet {
         last_col: ColNum,
         format: &Format,
     ) -> Result<&mut Worksheet, XlsxError> {
+        // Check columns are in the allowed range without updating dimensions.
+        if first_col >= COL_MAX || last_col >= COL_MAX {
+            return Err(XlsxError::RowColumnLimitError);
+        }
+
         // Check order of first/last values.
         if first_col > last_col {
             return Err(XlsxError::RowColumnOrderError);
@@ -8358,6 +8373,11 @@ impl Worksheet {
         first_col: ColNum,
         last_col: ColNum,
     ) -> Result<&mut Worksheet, XlsxError> {
+        // Check columns are in the allowed range without updating dimensions.
+        if first_col >= COL_MAX || last_col >= COL_MAX {
+            return Err(XlsxError::RowColumnLimitError);
+        }
+
         // Check order of first/last values.
         if first_col > last_col {
             return Err(XlsxError::RowColumnOrderError);
-- 
2.43.0


From 3a12d3d2ecbd6158e64e220aae59c3ba4c84a386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:36 +0000
Subject: [PATCH 29/57] fix: accept an empty list of page breaks

---
 src/worksheet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 90a9a35..72cda08 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -15014,7 +15014,7 @@ impl Worksheet {
         breaks.sort_unstable();
 
         // Remove invalid 0 row/col.
-        if breaks[0] == 0 {
+        if breaks.first() == Some(&0) {
             breaks.remove(0);
         }
 
-- 
2.43.0


From b7e78885b8d45b5a16b35bf13bbbeddc71ffce39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:36 +0000
Subject: [PATCH 30/57] fix: check outline levels before grouping, and count
 groups of one level

---
 src/worksheet.rs | 72 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 46 insertions(+), 26 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 72cda08..a3e8d81 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -7009,10 +7009,15 @@ impl Worksheet {
             return Err(XlsxError::RowColumnOrderError);
         }
 
-        // Set the collapsed property to the row after the collapsed group.
-        self.set_collapsed_row(last_row + 1)?;
+        // Check that there is a row after the collapsed group.
+        if !self.check_dimensions_only(last_row + 1, 0) {
+            return Err(XlsxError::RowColumnLimitError);
+        }
 
-        self.set_grouped_rows(first_row, last_row, true)
+        self.set_grouped_rows(first_row, last_row, true)?;
+
+        // Set the collapsed property to the row after the collapsed group.
+        self.set_collapsed_row(last_row + 1)
     }
 
     /// Group a range of columns into a worksheet outline group.
@@ -7393,10 +7398,15 @@ impl Worksheet {
             return Err(XlsxError::RowColumnOrderError);
         }
 
-        // Set the collapsed property to the column after the collapsed group.
-        self.set_collapsed_column(last_col + 1)?;
+        // Check that there is a column after the collapsed group.
+        if !self.check_dimensions_only(0, last_col + 1) {
+            return Err(XlsxError::RowColumnLimitError);
+        }
 
-        self.set_grouped_columns(first_col, last_col, true)
+        self.set_grouped_columns(first_col, last_col, true)?;
+
+        // Set the collapsed property to the column after the collapsed group.
+        self.set_collapsed_column(last_col + 1)
     }
 
     /// Place the row outline group expand/collapse symbols above the range.
@@ -17215,9 +17225,18 @@ impl Worksheet {
             return Err(XlsxError::RowColumnOrderError);
         }
 
+        // Check the outline levels are within Excel's limits.
+        for row in first_row..=last_row {
+            if let Some(row_options) = self.changed_rows.get(&row) {
+                if row_options.level >= 7 {
+                    return Err(XlsxError::MaxGroupLevelExceeded);
+                }
+            }
+        }
+
         // Write group outline for each row.
         for row in first_row..=last_row {
-            self.set_grouped_row(row, collapsed)?;
+            self.set_grouped_row(row, collapsed);
         }
 
         Ok(self)
@@ -17225,19 +17244,15 @@ impl Worksheet {
 
     // Set the row properties (outline level and hidden) for a single row in an
     // outline group. Rows are hidden if they are part of a collapsed group.
-    fn set_grouped_row(
-        &mut self,
-        row: RowNum,
-        collapsed: bool,
-    ) -> Result<&mut Worksheet, XlsxError> {
+    fn set_grouped_row(&mut self, row: RowNum, collapsed: bool) {
         // Update an existing row metadata object or create a new one.
         match self.changed_rows.get_mut(&row) {
             Some(row_options) => {
                 let next_level = row_options.level + 1;
 
-                // Check the outline level is within Excel's limits.
+                // Levels that exceed Excel's limits are reported by the caller.
                 if next_level > 7 {
-                    return Err(XlsxError::MaxGroupLevelExceeded);
+                    return;
                 }
 
                 // Store max worksheet outline row level.
@@ -17250,6 +17265,8 @@ impl Worksheet {
                 }
             }
             None => {
+                self.max_outline_row_level = std::cmp::max(1, self.max_outline_row_level);
+
                 let row_options = RowOptions {
                     height: self.user_default_row_height,
                     xf_index: 0,
@@ -17261,8 +17278,6 @@ impl Worksheet {
                 self.changed_rows.insert(row, row_options);
             }
         }
-
-        Ok(self)
     }
 
     // Set the collapsed property to the row after the collapse group.
@@ -17313,9 +17328,18 @@ impl Worksheet {
             return Err(XlsxError::RowColumnOrderError);
         }
 
+        // Check the outline levels are within Excel's limits.
+        for col in first_col..=last_col {
+            if let Some(column_options) = self.changed_cols.get(&col) {
+                if column_options.level >= 7 {
+                    return Err(XlsxError::MaxGroupLevelExceeded);
+                }
+            }
+        }
+
         // Write group outline for each column.
         for col in first_col..=last_col {
-            self.set_grouped_column(col, collapsed)?;
+            self.set_grouped_column(col, collapsed);
         }
 
         Ok(self)
@@ -17323,19 +17347,15 @@ impl Worksheet {
 
     // Set the column properties (outline level and hidden) for a single column in an
     // outline group. Rows are hidden if they are part of a collapsed group.
-    fn set_grouped_column(
-        &mut self,
-        column: ColNum,
-        collapsed: bool,
-    ) -> Result<&mut Worksheet, XlsxError> {
+    fn set_grouped_column(&mut self, column: ColNum, collapsed: bool) {
         // Update an existing column metadata object or create a new one.
         match self.changed_cols.get_mut(&column) {
             Some(column_options) => {
                 let next_level = column_options.level + 1;
 
-                // Check the outline level is within Excel's limits.
+                // Levels that exceed Excel's limits are reported by the caller.
                 if next_level > 7 {
-                    return Err(XlsxError::MaxGroupLevelExceeded);
+                    return;
                 }
 
                 // Store max worksheet outline column level.
@@ -17348,6 +17368,8 @@ impl Worksheet {
                 }
             }
             None => {
+                self.max_outline_col_level = std::cmp::max(1, self.max_outline_col_level);
+
                 let col_options = ColOptions {
                     width: DEFAULT_COL_WIDTH,
                     xf_index: 0,
@@ -17360,8 +17382,6 @@ impl Worksheet {
                 self.changed_cols.insert(column, col_options);
             }
         }
-
-        Ok(self)
     }
 
     // Set the collapsed property to the column after the collapse group.
-- 
2.43.0


From e37e8bb65d12d01a00eef78cb7b4babf85b74302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:36 +0000
Subject: [PATCH 31/57] fix: read the VBA signature before storing the VBA
 project

---
 src/workbook.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/workbook.rs b/src/workbook.rs
index 35b4a1e..fc9e72d 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -1891,16 +1891,16 @@ impl Workbook {
         project: P,
         signature: P,
     ) -> Result<&mut Workbook, XlsxError> {
-        // Add the project binary file.
-        self.add_vba_project(project)?;
-
-        // Add the signature binary file.
+        // Read the signature binary file.
         let path_buf = signature.as_ref().to_path_buf();
         let file = File::open(path_buf)?;
         let mut reader = BufReader::new(file);
         let mut data = vec![];
         reader.read_to_end(&mut data)?;
 
+        // Add the project binary file.
+        self.add_vba_project(project)?;
+
         self.vba_signature = data;
 
         Ok(self)
-- 
2.43.0


From d8c202f3c925f9650e3a3da234c8c02ff9154671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:36 +0000
Subject: [PATCH 32/57] fix: accept the upper limits of trendline orders and
 periods

---
 src/chart.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index ec26604..f4f80b4 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -2721,7 +2721,7 @@ impl Chart {
 
             // Validate Polynomial trendline range.
             if let ChartTrendlineType::Polynomial(order) = series.trendline.trend_type {
-                if !(2..6).contains(&order) {
+                if !(2..=6).contains(&order) {
                     return Err(XlsxError::ChartError(
                         "Chart series Polynomial trendline order must be in the Excel range 2-6"
                             .to_string(),
@@ -2731,7 +2731,7 @@ impl Chart {
 
             // Validate Moving Average trendline range.
             if let ChartTrendlineType::MovingAverage(period) = series.trendline.trend_type {
-                if !(2..4).contains(&period) {
+                if !(2..=4).contains(&period) {
                     return Err(XlsxError::ChartError(
                         "Chart series Moving Average trendline period must be in the Excel range 2-4"
                             .to_string(),
-- 
2.43.0


From 40b5f105a443f2de81d1f2f9a97a07b9e639e424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:36 +0000
Subject: [PATCH 33/57] fix: validate the secondary chart of a combined chart

---
 src/chart.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/chart.rs b/src/chart.rs
index f4f80b4..339ffba 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -2740,6 +2740,11 @@ impl Chart {
             }
         }
 
+        // Validate the secondary chart of a combined chart.
+        if let Some(chart) = &mut self.combined_chart {
+            chart.validate()?;
+        }
+
         Ok(self)
     }
 
-- 
2.43.0


From 25efc3b8d61925eb2d07c22c235d6807a87c7760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:15 +0000
Subject: [PATCH 34/57] fix: write the last row once in constant memory mode

The last row was written a second time when it had row options, and rows of
the write-ahead buffer were lost when the current row had no data.
---
 src/worksheet.rs | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index a3e8d81..17d7401 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -18676,33 +18676,31 @@ impl Worksheet {
         let mut remaining_rows: Vec<_> = self.write_ahead.keys().copied().collect();
 
         // Add any changed row elements.
-        let max_changed_row = self.changed_rows.keys().max().unwrap_or(&0);
-        if *max_changed_row > self.current_row {
-            for row_num in self.current_row..=*max_changed_row {
-                if self.changed_rows.contains_key(&row_num) {
-                    remaining_rows.push(row_num);
-                }
+        let max_changed_row = *self.changed_rows.keys().max().unwrap_or(&0);
+        for row_num in self.current_row + 1..=max_changed_row {
+            if self.changed_rows.contains_key(&row_num) {
+                remaining_rows.push(row_num);
             }
         }
 
-        // Add the current row.
-        remaining_rows.push(self.current_row);
-
         // Remove any duplicate rows.
         remaining_rows.sort_unstable();
         remaining_rows.dedup();
 
-        // If there is data to write (and not just write-ahead or rows) we move
-        // the final row ahead by one. This will start any subsequent write() on
-        // the next row, after a resave.
-        if self.data_table.contains_key(&self.current_row) {
-            remaining_rows.push(1 + *remaining_rows.last().unwrap());
-        }
-
-        // Flush all the remaining rows.
+        // Flush all the remaining rows. The last of them is then the current
+        // row.
         for remaining_row in remaining_rows {
             self.flush_data_row(remaining_row);
         }
+
+        // If there is anything to write for the current row we flush it and
+        // move ahead by one. This will start any subsequent write() on the next
+        // row, after a resave.
+        if self.data_table.contains_key(&self.current_row)
+            || self.changed_rows.contains_key(&self.current_row)
+        {
+            self.flush_data_row(self.current_row + 1);
+        }
     }
 
     // Flush all constant memory data up to the next target row.
-- 
2.43.0


From 9f73f67b8695a9e716623b9057267313ec86d577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:59 +0000
Subject: [PATCH 35/57] fix: write the outline level of rows in constant memory
 mode

---
 src/worksheet.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 17d7401..6d35862 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -19071,6 +19071,14 @@ impl Worksheet {
             {
                 attributes.push(("customHeight", "1".to_string()));
             }
+
+            if row_options.level > 0 {
+                attributes.push(("outlineLevel", row_options.level.to_string()));
+            }
+
+            if row_options.collapsed {
+                attributes.push(("collapsed", "1".to_string()));
+            }
         } else if self.user_default_row_height != DEFAULT_ROW_HEIGHT {
             attributes.push(("ht", self.user_default_row_height.to_string()));
             attributes.push(("customHeight", "1".to_string()));
-- 
2.43.0


From 534794999531f938a35f2e44f64b09a9f649dc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:42 +0000
Subject: [PATCH 36/57] fix: embed images in constant memory worksheets

The cell of an embedded image was written before the index of the image was
known, which caused a panic.
---
 src/workbook.rs  | 19 ++++++++++++++++++-
 src/worksheet.rs | 17 +++++++++++++++++
 2 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/src/workbook.rs b/src/workbook.rs
index fc9e72d..4db3e4e 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -332,6 +332,7 @@ pub struct Workbook {
     pub(crate) num_formats: Vec<String>,
     pub(crate) has_hyperlink_style: bool,
     pub(crate) embedded_images: Vec<Image>,
+    pub(crate) embedded_image_table: Arc<Mutex<Vec<Image>>>,
     pub(crate) vba_project: Vec<u8>,
     pub(crate) vba_signature: Vec<u8>,
     pub(crate) vba_codename: Option<String>,
@@ -424,6 +425,7 @@ impl Workbook {
             string_table: Arc::new(Mutex::new(SharedStringsTable::new())),
             dxf_indices: HashMap::new(),
             embedded_images: vec![],
+            embedded_image_table: Arc::new(Mutex::new(vec![])),
             is_xlsm_file: false,
             vba_project: vec![],
             vba_signature: vec![],
@@ -571,6 +573,8 @@ impl Workbook {
         worksheet.workbook_xf_indices = Arc::clone(&self.xf_indices);
         worksheet.has_workbook_global_xfs = true;
 
+        worksheet.embedded_image_table = Arc::clone(&self.embedded_image_table);
+
         self.worksheets.push(worksheet);
         let worksheet = self.worksheets.last_mut().unwrap();
 
@@ -642,6 +646,8 @@ impl Workbook {
         worksheet.workbook_xf_indices = Arc::clone(&self.xf_indices);
         worksheet.has_workbook_global_xfs = true;
 
+        worksheet.embedded_image_table = Arc::clone(&self.embedded_image_table);
+
         worksheet.string_table = Arc::clone(&self.string_table);
         worksheet.has_workbook_global_sst = true;
 
@@ -688,6 +694,8 @@ impl Workbook {
         worksheet.workbook_xf_indices = Arc::clone(&self.xf_indices);
         worksheet.has_workbook_global_xfs = true;
 
+        worksheet.embedded_image_table = Arc::clone(&self.embedded_image_table);
+
         worksheet
     }
 
@@ -728,6 +736,8 @@ impl Workbook {
         worksheet.workbook_xf_indices = Arc::clone(&self.xf_indices);
         worksheet.has_workbook_global_xfs = true;
 
+        worksheet.embedded_image_table = Arc::clone(&self.embedded_image_table);
+
         worksheet.string_table = Arc::clone(&self.string_table);
         worksheet.has_workbook_global_sst = true;
 
@@ -2254,10 +2264,17 @@ impl Workbook {
     // map these local references to a workbook/global id that takes into
     // account duplicate images.
     fn prepare_embedded_images(&mut self) {
-        let mut embedded_images = vec![];
+        // Start with the images from "constant memory" worksheets since their
+        // ids are fixed when the images are written to the cells.
+        let mut embedded_images = self.embedded_image_table.lock().unwrap().clone();
         let mut image_ids: HashMap<String, u32> = HashMap::new();
         let mut global_image_id = 0;
 
+        for image in &embedded_images {
+            global_image_id += 1;
+            image_ids.insert(image.hash.clone(), global_image_id);
+        }
+
         for worksheet in &mut self.worksheets {
             if worksheet.embedded_images.is_empty() {
                 continue;
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 6d35862..1005832 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -1516,6 +1516,7 @@ pub struct Worksheet {
     pub(crate) tables: Vec<Table>,
     pub(crate) has_embedded_image_descriptions: bool,
     pub(crate) embedded_images: Vec<Image>,
+    pub(crate) embedded_image_table: Arc<Mutex<Vec<Image>>>,
     pub(crate) global_embedded_image_indices: Vec<u32>,
     pub(crate) vba_codename: Option<String>,
     pub(crate) note_authors: BTreeMap<String, usize>,
@@ -1823,6 +1824,7 @@ impl Worksheet {
             use_x14_extensions: false,
             has_x14_conditional_formats: false,
             embedded_images: vec![],
+            embedded_image_table: Arc::new(Mutex::new(vec![])),
             embedded_image_ids: HashMap::new(),
             global_embedded_image_indices: vec![],
             has_embedded_image_descriptions: false,
@@ -15480,6 +15482,21 @@ impl Worksheet {
                 let image_id = self.embedded_image_ids.len() as u32;
                 self.embedded_image_ids.insert(image.hash.clone(), image_id);
                 self.embedded_images.push(image.clone());
+
+                // The cells of "constant memory" worksheets are written before
+                // the file is saved so the workbook id is required here.
+                if self.use_constant_memory {
+                    let mut images = self.embedded_image_table.lock().unwrap();
+                    let index = match images.iter().position(|x| x.hash == image.hash) {
+                        Some(index) => index,
+                        None => {
+                            images.push(image.clone());
+                            images.len() - 1
+                        }
+                    };
+                    self.global_embedded_image_indices.push(1 + index as u32);
+                }
+
                 image_id
             }
         };
-- 
2.43.0


From 400f615a4647a5f735b2519ef7fe46c7dab74126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:13 +0000
Subject: [PATCH 37/57] fix: don't keep the first visible tab of an earlier
 save

---
 src/workbook.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/workbook.rs b/src/workbook.rs
index 4db3e4e..642a820 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2215,6 +2215,7 @@ impl Workbook {
     // sheet. If none has been set, then defaults to the first sheet, like Excel.
     fn set_active_worksheets(&mut self) {
         let mut active_index = 0;
+        self.first_sheet = 0;
 
         for (i, worksheet) in self.worksheets.iter().enumerate() {
             if worksheet.active {
-- 
2.43.0


From 9a2cb1ae1e52b8cd61017131c759e09f3aa3cc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:13 +0000
Subject: [PATCH 38/57] fix: don't keep the default table names of an earlier
 save

---
 src/table.rs     | 15 ++++++++++-----
 src/workbook.rs  |  8 +++++---
 src/worksheet.rs |  3 ---
 3 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/table.rs b/src/table.rs
index b579f1b..4801e9c 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -1209,15 +1209,20 @@ impl Table {
         xml_end_tag(&mut self.writer, "table");
     }
 
+    // Get the user defined name of the table or the default name for its index.
+    pub(crate) fn display_name(&self) -> String {
+        if self.name.is_empty() {
+            format!("Table{}", self.index)
+        } else {
+            self.name.clone()
+        }
+    }
+
     // Write the <table> element.
     fn write_table(&mut self) {
         let schema = "http://schemas.openxmlformats.org/spreadsheetml/2006/main".to_string();
         let range = self.cell_range.to_range_string();
-        let name = if self.name.is_empty() {
-            format!("Table{}", self.index)
-        } else {
-            self.name.clone()
-        };
+        let name = self.display_name();
 
         let mut attributes = vec![
             ("xmlns", schema),
diff --git a/src/workbook.rs b/src/workbook.rs
index 642a820..226df44 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2382,11 +2382,13 @@ impl Workbook {
         // Check for duplicate table names.
         for worksheet in &self.worksheets {
             for table in &worksheet.tables {
-                if seen_table_names.contains(&table.name.to_lowercase()) {
-                    return Err(XlsxError::TableNameReused(table.name.to_string()));
+                let table_name = table.display_name();
+
+                if seen_table_names.contains(&table_name.to_lowercase()) {
+                    return Err(XlsxError::TableNameReused(table_name));
                 }
 
-                seen_table_names.insert(table.name.to_lowercase());
+                seen_table_names.insert(table_name.to_lowercase());
             }
         }
 
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 1005832..d758aa9 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16637,9 +16637,6 @@ impl Worksheet {
     pub(crate) fn prepare_worksheet_tables(&mut self, mut table_id: u32) -> u32 {
         for table in &mut self.tables {
             table.index = table_id;
-            if table.name.is_empty() {
-                table.name = format!("Table{table_id}");
-            }
 
             // Change any column format local index from local to global.
             for column in &mut table.columns {
-- 
2.43.0


From 9bc5d0a21b320819dce823a89d3ea275e904b229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:13 +0000
Subject: [PATCH 39/57] fix: don't map the format index of a table column again
 in every save

---
 src/table.rs     | 6 ++++--
 src/worksheet.rs | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/table.rs b/src/table.rs
index 4801e9c..281cea7 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -1282,8 +1282,8 @@ impl Table {
             attributes.push(("totalsRowFunction", column.total_function.to_string()));
         }
 
-        if let Some(format) = &column.format {
-            attributes.push(("dataDxfId", format.dxf_index.to_string()));
+        if column.format.is_some() {
+            attributes.push(("dataDxfId", column.dxf_index.to_string()));
         }
 
         if column.formula.is_some() || matches!(&column.total_function, TableFunction::Custom(_)) {
@@ -1425,6 +1425,7 @@ pub struct TableColumn {
     pub(crate) formula: Option<Formula>,
     pub(crate) format: Option<Format>,
     pub(crate) header_format: Option<Format>,
+    pub(crate) dxf_index: u32,
 }
 
 impl TableColumn {
@@ -1438,6 +1439,7 @@ impl TableColumn {
             formula: None,
             format: None,
             header_format: None,
+            dxf_index: 0,
         }
     }
 
diff --git a/src/worksheet.rs b/src/worksheet.rs
index d758aa9..3aa40e1 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16640,8 +16640,8 @@ impl Worksheet {
 
             // Change any column format local index from local to global.
             for column in &mut table.columns {
-                if let Some(format) = column.format.as_mut() {
-                    format.dxf_index = self.global_dxf_indices[format.dxf_index as usize];
+                if let Some(format) = &column.format {
+                    column.dxf_index = self.global_dxf_indices[format.dxf_index as usize];
                 }
             }
 
-- 
2.43.0


From d79148330b581eab9f1f18e923835b06f4d81b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:13 +0000
Subject: [PATCH 40/57] fix: don't reuse the number format ids of differential
 formats from an earlier save

---
 src/workbook.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/workbook.rs b/src/workbook.rs
index 226df44..f7bb5b9 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2147,6 +2147,12 @@ impl Workbook {
 
         drop(xf_indices);
 
+        // Similarly, sort the DXF formats into their index order. This also
+        // clears any number format indices from a previous save.
+        let mut dxf_indices_vec: Vec<(&Format, &u32)> = self.dxf_indices.iter().collect();
+        dxf_indices_vec.sort_by(|a, b| a.1.cmp(b.1));
+        self.dxf_formats = dxf_indices_vec.iter().map(|x| x.0.clone()).collect();
+
         // Map worksheet/local format indices to the workbook/global values.
         for (i, worksheet) in self.worksheets.iter_mut().enumerate() {
             worksheet.set_global_xf_indices(&worksheet_xf_indices[i]);
-- 
2.43.0


From f64ace3606b2c7e03b0f49dcef6f7faffc295c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:13 +0000
Subject: [PATCH 41/57] fix: clear the shape and VML lists that a failed save
 leaves behind

---
 src/drawing.rs   | 2 +-
 src/worksheet.rs | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index 65c188c..9168d79 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -23,7 +23,7 @@ pub struct Drawing {
     pub(crate) writer: Cursor<Vec<u8>>,
     pub(crate) drawings: Vec<DrawingInfo>,
     pub(crate) shapes: Vec<Shape>,
-    shape_id: usize,
+    pub(crate) shape_id: usize,
 }
 
 impl Drawing {
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 3aa40e1..e0b0707 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16900,6 +16900,10 @@ impl Worksheet {
         self.drawing_rel_ids.clear();
         self.drawing_relationships.clear();
         self.drawing.drawings.clear();
+        self.drawing.shapes.clear();
+        self.drawing.shape_id = 0;
+        self.buttons_vml_info.clear();
+        self.comments_vml_info.clear();
         self.header_footer_vml_info.clear();
         self.hyperlink_relationships.clear();
         self.table_relationships.clear();
-- 
2.43.0


From 01563ff26d6c6905b701b1785321779cd039651f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:13 +0000
Subject: [PATCH 42/57] fix: don't keep the comment style of worksheets that
 were removed

---
 src/workbook.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/workbook.rs b/src/workbook.rs
index f7bb5b9..d7597ce 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2242,6 +2242,8 @@ impl Workbook {
         let mut vml_data_id = 1;
         let mut vml_shape_id = 1024;
 
+        self.has_comments = false;
+
         for worksheet in &mut self.worksheets {
             if worksheet.has_vml {
                 let note_count = worksheet.prepare_vml_objects(vml_data_id, vml_shape_id);
-- 
2.43.0


From b1056d7cb505f3f8b872ae159f27c3e8f8098d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:13 +0000
Subject: [PATCH 43/57] fix: don't keep the default active worksheet of an
 earlier save selected

---
 src/packager.rs  |  4 ++--
 src/workbook.rs  | 14 +++++++++++---
 src/worksheet.rs | 14 +++++++++++++-
 3 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/packager.rs b/src/packager.rs
index 18e67ef..424f17f 100644
--- a/src/packager.rs
+++ b/src/packager.rs
@@ -748,7 +748,7 @@ impl<W: Write + Seek + Send> Packager<W> {
         for worksheet in &workbook.worksheets {
             let sheet_name = &worksheet.name;
 
-            if !worksheet.is_chartsheet && worksheet.visible != Visible::VeryHidden {
+            if !worksheet.is_chartsheet && worksheet.visibility() != Visible::VeryHidden {
                 app.add_part_name(sheet_name);
 
                 num_worksheets += 1;
@@ -761,7 +761,7 @@ impl<W: Write + Seek + Send> Packager<W> {
         for worksheet in &workbook.worksheets {
             let sheet_name = &worksheet.name;
 
-            if worksheet.is_chartsheet && worksheet.visible != Visible::VeryHidden {
+            if worksheet.is_chartsheet && worksheet.visibility() != Visible::VeryHidden {
                 app.add_part_name(sheet_name);
 
                 num_chartsheets += 1;
diff --git a/src/workbook.rs b/src/workbook.rs
index d7597ce..72f00c7 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2221,17 +2221,25 @@ impl Workbook {
     // sheet. If none has been set, then defaults to the first sheet, like Excel.
     fn set_active_worksheets(&mut self) {
         let mut active_index = 0;
+        let mut has_active_sheet = false;
         self.first_sheet = 0;
 
         for (i, worksheet) in self.worksheets.iter().enumerate() {
             if worksheet.active {
                 active_index = i;
+                has_active_sheet = true;
             }
             if worksheet.first_sheet {
                 self.first_sheet = i as u16;
             }
         }
-        self.worksheets[active_index].set_active(true);
+
+        // The first worksheet is the default active worksheet. The user's own
+        // settings aren't changed since they may be used by a later save.
+        for (i, worksheet) in self.worksheets.iter_mut().enumerate() {
+            worksheet.is_default_active = i == 0 && !has_active_sheet;
+        }
+
         self.active_tab = active_index as u16;
     }
 
@@ -2786,7 +2794,7 @@ impl Workbook {
                 package_options.num_worksheets += 1;
             }
 
-            if worksheet.visible == Visible::VeryHidden {
+            if worksheet.visibility() == Visible::VeryHidden {
                 package_options.worksheet_names.push(String::new());
             } else {
                 package_options.worksheet_names.push(sheet_name.clone());
@@ -3019,7 +3027,7 @@ impl Workbook {
 
         let mut worksheet_data = vec![];
         for worksheet in &self.worksheets {
-            worksheet_data.push((worksheet.name.clone(), worksheet.visible));
+            worksheet_data.push((worksheet.name.clone(), worksheet.visibility()));
         }
 
         for (index, data) in worksheet_data.iter().enumerate() {
diff --git a/src/worksheet.rs b/src/worksheet.rs
index e0b0707..23963b1 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -1493,6 +1493,7 @@ pub struct Worksheet {
     pub(crate) selected: bool,
     pub(crate) visible: Visible,
     pub(crate) first_sheet: bool,
+    pub(crate) is_default_active: bool,
     pub(crate) has_local_string_table: bool,
     pub(crate) has_dynamic_arrays: bool,
     pub(crate) print_area_defined_name: DefinedName,
@@ -1735,6 +1736,7 @@ impl Worksheet {
             selected: false,
             visible: Visible::Default,
             first_sheet: false,
+            is_default_active: false,
             has_local_string_table: false,
             has_vml: false,
             has_dynamic_arrays: false,
@@ -16911,6 +16913,16 @@ impl Worksheet {
         self.background_relationships.clear();
     }
 
+    // Get the visibility of the worksheet. The worksheet that is active by
+    // default cannot be hidden.
+    pub(crate) fn visibility(&self) -> Visible {
+        if self.is_default_active {
+            Visible::Default
+        } else {
+            self.visible
+        }
+    }
+
     // Check if any external relationships are required.
     pub(crate) fn has_relationships(&self) -> bool {
         !self.hyperlink_relationships.is_empty()
@@ -17824,7 +17836,7 @@ impl Worksheet {
             attributes.push(("rightToLeft", "1".to_string()));
         }
 
-        if self.selected {
+        if self.selected || self.is_default_active {
             attributes.push(("tabSelected", "1".to_string()));
         }
 
-- 
2.43.0


From b1d93007fada3efe536e143d385e86e1d502b276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:13 +0000
Subject: [PATCH 44/57] fix: don't keep the visibility of notes from an earlier
 save

---
 src/worksheet.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 23963b1..2a018cd 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16488,14 +16488,9 @@ impl Worksheet {
         let mut button_id = 1;
         let mut note_count = 0;
 
-        // Modify Note visibility and author according to worksheet settings.
+        // Modify Note author according to worksheet settings.
         for columns in self.notes.values_mut() {
             for note in columns.values_mut() {
-                // Set all notes visible if required.
-                if self.show_all_notes && note.is_visible.is_none() {
-                    note.is_visible = Some(true);
-                }
-
                 // Check for a user defined author name.
                 let Some(note_author) = &note.author else {
                     continue;
@@ -16522,6 +16517,12 @@ impl Worksheet {
                 let note_col = note.col();
 
                 let mut vml_info = note.vml_info();
+
+                // Set all notes visible if required.
+                if self.show_all_notes && note.is_visible.is_none() {
+                    vml_info.is_visible = true;
+                }
+
                 vml_info.drawing_info = self.position_object_pixels(note_row, note_col, note);
                 vml_info.row = *cell_row;
                 vml_info.col = *cell_col;
-- 
2.43.0


From 9e583d8d4664accd03c233448eb990fe75562749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:19 +0000
Subject: [PATCH 45/57] fix: don't keep the rows hidden by an autofilter of an
 earlier save

---
 src/worksheet.rs | 45 ++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 2a018cd..257b70b 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -6455,6 +6455,7 @@ impl Worksheet {
                     height,
                     xf_index: 0,
                     hidden: false,
+                    filtered: false,
                     level: 0,
                     collapsed: false,
                     format: None,
@@ -6612,6 +6613,7 @@ impl Worksheet {
                     height: self.user_default_row_height,
                     xf_index,
                     hidden: false,
+                    filtered: false,
                     level: 0,
                     collapsed: false,
                     format: Some(format.clone()),
@@ -7665,6 +7667,7 @@ impl Worksheet {
                     height: self.user_default_row_height,
                     xf_index: 0,
                     hidden: true,
+                    filtered: false,
                     level: 0,
                     collapsed: false,
                     format: None,
@@ -14803,6 +14806,11 @@ impl Worksheet {
     // Hide any rows in the autofilter range that don't match the autofilter
     // conditions, like Excel does at runtime.
     pub(crate) fn hide_autofilter_rows(&mut self) {
+        // Clear the rows that were hidden by the filters in a previous save.
+        for row_options in self.changed_rows.values_mut() {
+            row_options.filtered = false;
+        }
+
         if self.filter_conditions.is_empty() || self.filter_automatic_off {
             return;
         }
@@ -14818,18 +14826,42 @@ impl Worksheet {
                 if filter_condition.is_list_filter {
                     // Handle list filters.
                     if !self.row_matches_list_filter(row_num, *col_num, &filter_condition) {
-                        self.set_row_hidden(row_num).unwrap();
+                        self.set_row_filtered(row_num);
                     }
                 } else {
                     // Handle custom filters.
                     if !self.row_matches_custom_filters(row_num, *col_num, &filter_condition) {
-                        self.set_row_hidden(row_num).unwrap();
+                        self.set_row_filtered(row_num);
                     }
                 }
             }
         }
     }
 
+    // Hide a row that doesn't match the autofilter conditions. This is stored
+    // separately from rows hidden by the user.
+    fn set_row_filtered(&mut self, row: RowNum) {
+        // Ensure that the row is within the range of rows that are written.
+        let min_col = self.get_min_col();
+        self.check_dimensions(row, min_col);
+
+        match self.changed_rows.get_mut(&row) {
+            Some(row_options) => row_options.filtered = true,
+            None => {
+                let row_options = RowOptions {
+                    height: self.user_default_row_height,
+                    xf_index: 0,
+                    hidden: false,
+                    filtered: true,
+                    level: 0,
+                    collapsed: false,
+                    format: None,
+                };
+                self.changed_rows.insert(row, row_options);
+            }
+        }
+    }
+
     // Check if the data in a cell matches one of the values in the list of
     // filter conditions (which in the list filter case is a list of strings or
     // number values).
@@ -16870,7 +16902,7 @@ impl Worksheet {
     fn row_pixel_height(&mut self, row: RowNum, position: ObjectMovement) -> u32 {
         match self.changed_rows.get(&row) {
             Some(row_options) => {
-                let hidden = row_options.hidden;
+                let hidden = row_options.hidden || row_options.filtered;
 
                 if hidden && position != ObjectMovement::MoveAndSizeWithCellsAfter {
                     // A hidden row is treated as having a height of zero unless
@@ -17302,6 +17334,7 @@ impl Worksheet {
                     height: self.user_default_row_height,
                     xf_index: 0,
                     hidden: collapsed,
+                    filtered: false,
                     level: 1,
                     collapsed: false,
                     format: None,
@@ -17327,6 +17360,7 @@ impl Worksheet {
                     height: self.user_default_row_height,
                     xf_index: 0,
                     hidden: false,
+                    filtered: false,
                     level: 0,
                     collapsed: true,
                     format: None,
@@ -19029,7 +19063,7 @@ impl Worksheet {
                 attributes.push(("ht", row_options.height.to_string()));
             }
 
-            if row_options.hidden {
+            if row_options.hidden || row_options.filtered {
                 attributes.push(("hidden", "1".to_string()));
             }
 
@@ -19091,7 +19125,7 @@ impl Worksheet {
                 attributes.push(("ht", row_options.height.to_string()));
             }
 
-            if row_options.hidden {
+            if row_options.hidden || row_options.filtered {
                 attributes.push(("hidden", "1".to_string()));
             }
 
@@ -20600,6 +20634,7 @@ struct RowOptions {
     xf_index: u32,
     level: u8,
     hidden: bool,
+    filtered: bool,
     collapsed: bool,
     format: Option<Format>,
 }
-- 
2.43.0


From e53ee415c3ec54dbc1aa19f667b42696fd5ae2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:19 +0000
Subject: [PATCH 46/57] fix: don't keep the default VBA names of worksheets
 from an earlier save

---
 src/workbook.rs  | 11 +++++------
 src/worksheet.rs |  6 +++++-
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/workbook.rs b/src/workbook.rs
index 72f00c7..b87aaf3 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2167,12 +2167,11 @@ impl Workbook {
             // Set a default codename for the worksheet if the overall workbook
             // is a xlsm file. Note that the VBA sheet naming scheme is based on
             // SheetN and not on the actual sheet name.
-            if self.is_xlsm_file {
-                let codename = format!("Sheet{}", i + 1);
-                if worksheet.vba_codename.is_none() {
-                    worksheet.vba_codename = Some(codename);
-                }
-            }
+            worksheet.default_vba_codename = if self.is_xlsm_file {
+                Some(format!("Sheet{}", i + 1))
+            } else {
+                None
+            };
 
             // Chartsheets shouldn't use constant memory mode.
             if worksheet.is_chartsheet {
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 257b70b..00f3d5c 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -1520,6 +1520,7 @@ pub struct Worksheet {
     pub(crate) embedded_image_table: Arc<Mutex<Vec<Image>>>,
     pub(crate) global_embedded_image_indices: Vec<u32>,
     pub(crate) vba_codename: Option<String>,
+    pub(crate) default_vba_codename: Option<String>,
     pub(crate) note_authors: BTreeMap<String, usize>,
     pub(crate) vml_data_id: String,
     pub(crate) vml_shape_id: u32,
@@ -1833,6 +1834,7 @@ impl Worksheet {
             has_sparklines: false,
             sparklines: vec![],
             vba_codename: None,
+            default_vba_codename: None,
             note_authors: BTreeMap::from([("Author".to_string(), 0)]),
             show_all_notes: false,
             vml_data_id: String::new(),
@@ -17739,6 +17741,7 @@ impl Worksheet {
             && !self.fit_to_page
             && (self.tab_color == Color::Default || self.tab_color == Color::Automatic)
             && self.vba_codename.is_none()
+            && self.default_vba_codename.is_none()
             && !self.is_chartsheet
             && !self.outline_symbols_above
             && !self.outline_symbols_left
@@ -17747,7 +17750,8 @@ impl Worksheet {
         }
 
         let mut attributes = vec![];
-        if let Some(codename) = &self.vba_codename {
+        let codename = self.vba_codename.as_ref();
+        if let Some(codename) = codename.or(self.default_vba_codename.as_ref()) {
             attributes.push(("codeName", codename.clone()));
         }
         if !self.filter_conditions.is_empty() {
-- 
2.43.0


From eb61e0d33754aae6604c9608bad45ad351e2e9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:19 +0000
Subject: [PATCH 47/57] fix: a number format string replaces a number format
 index

---
 src/format.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/format.rs b/src/format.rs
index 7ea7895..2132bda 100644
--- a/src/format.rs
+++ b/src/format.rs
@@ -828,6 +828,7 @@ impl Format {
     ///
     pub fn set_num_format(mut self, num_format: impl Into<String>) -> Format {
         self.num_format = num_format.into();
+        self.num_format_index = 0;
         self
     }
 
-- 
2.43.0


From 1a31c72ba96640c8efa5f85ddb207ecc894bf21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:28 +0000
Subject: [PATCH 48/57] fix: number differential formats by their own table

---
 src/workbook.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/workbook.rs b/src/workbook.rs
index b87aaf3..7a2b141 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2577,7 +2577,7 @@ impl Workbook {
         match self.dxf_indices.get_mut(format) {
             Some(dxf_index) => *dxf_index,
             None => {
-                let dxf_index = self.dxf_formats.len() as u32;
+                let dxf_index = self.dxf_indices.len() as u32;
                 self.dxf_formats.push(format.clone());
                 self.dxf_indices.insert(format.clone(), dxf_index);
                 dxf_index
-- 
2.43.0


From 3dde18f16d8fa68e21d50cc6e22dd8716aea2695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:03 +0000
Subject: [PATCH 49/57] fix: don't keep the image types and drawing linkage of
 an earlier save

---
 src/worksheet.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 00f3d5c..068ed9f 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16946,6 +16946,13 @@ impl Worksheet {
         self.table_relationships.clear();
         self.vml_drawing_relationships.clear();
         self.background_relationships.clear();
+
+        // Only the image types from embedded images are set before the save.
+        self.has_drawing_object_linkage = false;
+        self.image_types = [false; NUM_IMAGE_FORMATS];
+        for image in &self.embedded_images {
+            self.image_types[image.image_type.clone() as usize] = true;
+        }
     }
 
     // Get the visibility of the worksheet. The worksheet that is active by
-- 
2.43.0


From a5b0ba3751939b490e7db2a3b903e97f9d97c334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:59 +0000
Subject: [PATCH 50/57] fix: number header and footer images in the order of
 the image files

---
 src/workbook.rs  | 6 +-----
 src/worksheet.rs | 8 ++++----
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/workbook.rs b/src/workbook.rs
index 7a2b141..9886519 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2372,11 +2372,7 @@ impl Workbook {
             }
 
             if worksheet.has_header_footer_images() {
-                // The header/footer images are counted from the last worksheet id.
-                let base_image_id =
-                    background_image_ids.len() as u32 + worksheet_image_ids.len() as u32;
-
-                worksheet.prepare_header_footer_images(&mut header_footer_image_ids, base_image_id);
+                worksheet.prepare_header_footer_images(&mut header_footer_image_ids, &mut image_id);
             }
         }
     }
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 068ed9f..fdeddc3 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16462,16 +16462,16 @@ impl Worksheet {
     pub(crate) fn prepare_header_footer_images(
         &mut self,
         image_ids: &mut HashMap<String, u32>,
-        base_image_id: u32,
+        image_id: &mut u32,
     ) {
         let mut rel_ids: HashMap<String, u32> = HashMap::new();
         for image in self.header_footer_images.clone().into_iter().flatten() {
             let image_id = match image_ids.get(&image.hash) {
                 Some(image_id) => *image_id,
                 None => {
-                    let image_id = 1 + base_image_id + image_ids.len() as u32;
-                    image_ids.insert(image.hash.clone(), image_id);
-                    image_id
+                    *image_id += 1;
+                    image_ids.insert(image.hash.clone(), *image_id);
+                    *image_id
                 }
             };
 
-- 
2.43.0


From 5c8f545ca80866e672e74eab645f20d37851ff1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:08 +0000
Subject: [PATCH 51/57] fix: derive drawing relationship ids from the
 relationships written

---
 src/worksheet.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index fdeddc3..ba278fb 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16322,7 +16322,7 @@ impl Worksheet {
                 let rel_id = match self.drawing_rel_ids.get(&hyperlink.link) {
                     Some(rel_id) => *rel_id,
                     None => {
-                        let rel_id = 1 + self.drawing_rel_ids.len() as u32;
+                        let rel_id = 1 + self.drawing_relationships.len() as u32;
                         self.drawing_rel_ids.insert(hyperlink.link.clone(), rel_id);
 
                         // Store the linkage to the drawings rels file.
@@ -16345,7 +16345,7 @@ impl Worksheet {
             let rel_id = match self.drawing_rel_ids.get(&image.hash) {
                 Some(rel_id) => *rel_id,
                 None => {
-                    let rel_id = 1 + self.drawing_rel_ids.len() as u32;
+                    let rel_id = 1 + self.drawing_relationships.len() as u32;
                     self.drawing_rel_ids.insert(image.hash.clone(), rel_id);
 
                     // Store the linkage to the drawings rels file.
@@ -16413,7 +16413,7 @@ impl Worksheet {
                 let rel_id = match self.drawing_rel_ids.get(&hyperlink.link) {
                     Some(rel_id) => *rel_id,
                     None => {
-                        let rel_id = 1 + self.drawing_rel_ids.len() as u32;
+                        let rel_id = 1 + self.drawing_relationships.len() as u32;
                         self.drawing_rel_ids.insert(hyperlink.link.clone(), rel_id);
 
                         // Store the linkage to the drawings rels file.
@@ -16623,7 +16623,6 @@ impl Worksheet {
         }
 
         let mut rel_id = self.drawing_relationships.len() as u32;
-        self.drawing_rel_ids.insert("Chart".to_string(), rel_id);
 
         for (cell, chart) in &mut self.charts.clone() {
             let row = cell.0;
-- 
2.43.0


From ceb6bef3cb8f6f5f5a033f2f0b33d05a6bb3f4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:35 +0000
Subject: [PATCH 52/57] fix: share a drawing hyperlink relationship only when
 its target is the same

---
 src/worksheet.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index ba278fb..e71fd12 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16319,11 +16319,11 @@ impl Worksheet {
                 let target = hyperlink.target();
                 let target_mode = hyperlink.target_mode();
 
-                let rel_id = match self.drawing_rel_ids.get(&hyperlink.link) {
+                let rel_id = match self.drawing_rel_ids.get(&target) {
                     Some(rel_id) => *rel_id,
                     None => {
                         let rel_id = 1 + self.drawing_relationships.len() as u32;
-                        self.drawing_rel_ids.insert(hyperlink.link.clone(), rel_id);
+                        self.drawing_rel_ids.insert(target.clone(), rel_id);
 
                         // Store the linkage to the drawings rels file.
                         self.drawing_relationships.push((
@@ -16410,11 +16410,11 @@ impl Worksheet {
                 let target = hyperlink.target();
                 let target_mode = hyperlink.target_mode();
 
-                let rel_id = match self.drawing_rel_ids.get(&hyperlink.link) {
+                let rel_id = match self.drawing_rel_ids.get(&target) {
                     Some(rel_id) => *rel_id,
                     None => {
                         let rel_id = 1 + self.drawing_relationships.len() as u32;
-                        self.drawing_rel_ids.insert(hyperlink.link.clone(), rel_id);
+                        self.drawing_rel_ids.insert(target.clone(), rel_id);
 
                         // Store the linkage to the drawings rels file.
                         self.drawing_relationships.push((
-- 
2.43.0


From 0e755749bbd58a0b1a2d49cbb287acbe42ba1189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:05 +0000
Subject: [PATCH 53/57] fix: write x14 conditional formats in the order of the
 rules they extend

---
 src/worksheet.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index e71fd12..1e8c0f2 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -18134,12 +18134,17 @@ impl Worksheet {
         let mut guid_index = 1;
         let mut priority = 1;
 
-        for (cell_range, conditionals_for_range) in &self.conditional_formats {
+        // The ranges are written in the same order as the standard conditional
+        // formats so that the guids and priorities of the rules match.
+        for cell_range in &self.conditional_format_order {
+            let conditionals_for_range = self.conditional_formats.get(cell_range).unwrap();
+
             // Only create an entry if range contains a x14 style conditional.
             if !conditionals_for_range
                 .iter()
                 .any(|rule| rule.has_x14_extensions())
             {
+                priority += conditionals_for_range.len() as u32;
                 continue;
             }
 
-- 
2.43.0


From 849c6d7944e7439765380a9c361208e4eb6a53b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:05 +0000
Subject: [PATCH 54/57] fix: write note authors in the order of their ids

---
 src/packager.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/packager.rs b/src/packager.rs
index 424f17f..bdb09ac 100644
--- a/src/packager.rs
+++ b/src/packager.rs
@@ -899,7 +899,12 @@ impl<W: Write + Seek + Send> Packager<W> {
 
                 let mut comment = Comment::new();
                 comment.notes = worksheet.notes.clone();
-                comment.note_authors = worksheet.note_authors.keys().cloned().collect();
+
+                // The authors are written in the order of the ids in the notes.
+                let mut note_authors: Vec<(&String, &usize)> =
+                    worksheet.note_authors.iter().collect();
+                note_authors.sort_by_key(|author| author.1);
+                comment.note_authors = note_authors.iter().map(|x| x.0.clone()).collect();
 
                 comment.assemble_xml_file();
 
-- 
2.43.0


From a13f0d29f6663f5b33a64dde87f95657f60683c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:05 +0000
Subject: [PATCH 55/57] fix: write the first page number of the page setup

---
 src/worksheet.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 1e8c0f2..4eec819 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -18425,6 +18425,10 @@ impl Worksheet {
             attributes.push(("scale", self.print_scale.to_string()));
         }
 
+        if self.first_page_number > 1 {
+            attributes.push(("firstPageNumber", self.first_page_number.to_string()));
+        }
+
         if self.fit_to_page {
             if self.fit_width != 1 {
                 attributes.push(("fitToWidth", self.fit_width.to_string()));
@@ -18445,7 +18449,7 @@ impl Worksheet {
         }
 
         if self.first_page_number > 0 {
-            attributes.push(("useFirstPageNumber", self.first_page_number.to_string()));
+            attributes.push(("useFirstPageNumber", "1".to_string()));
         }
 
         if self.print_black_and_white {
-- 
2.43.0


From 58afe5bd97e3cc903eed91c1d8bcf2c7c8e23e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:05 +0000
Subject: [PATCH 56/57] fix: write chart and shape font sizes as whole
 hundredths of a point

---
 src/chart.rs | 2 +-
 src/shape.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index 339ffba..06d948b 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -15458,7 +15458,7 @@ impl ChartFont {
     where
         T: Into<f64>,
     {
-        self.size = font_size.into() * 100.0;
+        self.size = (font_size.into() * 100.0).round();
         self
     }
 
diff --git a/src/shape.rs b/src/shape.rs
index 87282ac..af4658c 100644
--- a/src/shape.rs
+++ b/src/shape.rs
@@ -3103,7 +3103,7 @@ impl ShapeFont {
     where
         T: Into<f64>,
     {
-        self.size = font_size.into() * 100.0;
+        self.size = (font_size.into() * 100.0).round();
         self
     }
 
-- 
2.43.0


From 5fca0a105ebe161ec1e00b2812b10fae8969aba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:34 +0000
Subject: [PATCH 57/57] fix: omit c:symbol without a marker type

A chart marker with a size or a format but no type was written with a
<c:symbol/> element that lacked its required val attribute.
---
 src/chart.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/chart.rs b/src/chart.rs
index 06d948b..d30399d 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -5596,6 +5596,10 @@ impl Chart {
             attributes.push(("val", marker_type.to_string()));
         } else if marker.none {
             attributes.push(("val", "none".to_string()));
+        } else {
+            // Without a marker type Excel uses the default symbol. The "val"
+            // attribute is required so the element is omitted.
+            return;
         }
 
         xml_empty_tag(&mut self.writer, "c:symbol", &attributes);
-- 
2.43.0

