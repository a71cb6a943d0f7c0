From 0da5bdea6716afab6b3f3e6a4d742d03bf9410cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:26 +0000
Subject: [PATCH 01/20] fix: wrap the 16-bit difference modulo 2^16 before it
 is categorised

With bit_depth 16 a difference beyond +-32768 was coded as category 16
without its extra bits, so the sample could not be recovered.
---
 migen_src/difference.py  | 9 +++++++--
 verilog_src/difference.v | 8 ++++----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/migen_src/difference.py b/migen_src/difference.py
index b219c55..68ad107 100644
--- a/migen_src/difference.py
+++ b/migen_src/difference.py
@@ -84,10 +84,15 @@ class Difference(Elaboratable):
 
 		m = Module()
 
+		#the difference is calculated modulo 2^16 - only matter if bit_depth is 16
+		diffs = [pixel_in - predic_in for pixel_in, predic_in in zip(self.pixels_in, self.predics_in)]
+		if self.bd == 16:
+			diffs = [Cat(diff[0:16], diff[15]) for diff in diffs]
+
 		#if valid data
 		with m.If(self.valid_in):
-			m.d.sync += [val_out.eq(pixel_in-predic_in) for val_out, pixel_in, predic_in in zip(self.vals_out, self.pixels_in, self.predics_in)]
-			m.d.sync += [val_out_mns.eq(pixel_in-predic_in-1) for val_out_mns, pixel_in, predic_in in zip(self.vals_out_mns, self.pixels_in, self.predics_in)]
+			m.d.sync += [val_out.eq(diff) for val_out, diff in zip(self.vals_out, diffs)]
+			m.d.sync += [val_out_mns.eq(diff-1) for val_out_mns, diff in zip(self.vals_out_mns, diffs)]
 
 		#if valid data
 		m.d.sync += self.valid_out.eq(self.valid_in)
diff --git a/verilog_src/difference.v b/verilog_src/difference.v
index 121309f..8dd2eab 100644
--- a/verilog_src/difference.v
+++ b/verilog_src/difference.v
@@ -65,9 +65,9 @@ module top(pixel_in, predic_in, \pixel_in$1 , \predic_in$2 , end_in, rst, clk, v
   output valid_out;
   reg valid_out = 1'h0;
   assign \$11  = pixel_in - (* src = "difference.py:90" *) predic_in;
-  assign \$13  = \$11  - (* src = "difference.py:90" *) 1'h1;
+  assign \$13  = { \$11 [15], \$11 [15:0] } - (* src = "difference.py:90" *) 1'h1;
   assign \$16  = \pixel_in$1  - (* src = "difference.py:90" *) \predic_in$2 ;
-  assign \$18  = \$16  - (* src = "difference.py:90" *) 1'h1;
+  assign \$18  = { \$16 [15], \$16 [15:0] } - (* src = "difference.py:90" *) 1'h1;
   assign \$6  = pixel_in - (* src = "difference.py:89" *) predic_in;
   assign \$8  = \pixel_in$1  - (* src = "difference.py:89" *) \predic_in$2 ;
   always @(posedge clk)
@@ -86,7 +86,7 @@ module top(pixel_in, predic_in, \pixel_in$1 , \predic_in$2 , end_in, rst, clk, v
     \$next\val_out$4  = \val_out$4 ;
     casez (valid_in)
       1'h1:
-          \$next\val_out$4  = \$6 ;
+          \$next\val_out$4  = { \$6 [15], \$6 [15:0] };
     endcase
     casez (rst)
       1'h1:
@@ -97,7 +97,7 @@ module top(pixel_in, predic_in, \pixel_in$1 , \predic_in$2 , end_in, rst, clk, v
     \$next\val_out$5  = \val_out$5 ;
     casez (valid_in)
       1'h1:
-          \$next\val_out$5  = \$8 ;
+          \$next\val_out$5  = { \$8 [15], \$8 [15:0] };
     endcase
     casez (rst)
       1'h1:
-- 
2.43.0


From 76a2acc142319584a3a38328c4036cbac352fca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:55 +0000
Subject: [PATCH 02/20] fix: keep all 8 bits of the half word B16B40 holds back

temp_8 was one bit wide, so when buffer 2 was still occupied the seven upper
bits of the byte carried over into it were lost.
---
 migen_src/b16_b40.py                     | 2 +-
 verilog_src/b16_b40.v                    | 8 ++++----
 verilog_src/beta_integration_fifo_lvds.v | 8 ++++----
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/migen_src/b16_b40.py b/migen_src/b16_b40.py
index 85f219f..0d837a9 100644
--- a/migen_src/b16_b40.py
+++ b/migen_src/b16_b40.py
@@ -70,7 +70,7 @@ class B16B40(Elaboratable):
         m.d.comb += is_valid.eq(1)
 
         # buffer for the 0.5*input size
-        temp_8 = Signal(1)
+        temp_8 = Signal(8)
 
         # handle data_out
         with m.If(buff_chs==0):
diff --git a/verilog_src/b16_b40.v b/verilog_src/b16_b40.v
index dafb67f..105e28b 100644
--- a/verilog_src/b16_b40.v
+++ b/verilog_src/b16_b40.v
@@ -58,7 +58,7 @@ module top(i_busy, valid_in, data_in, full_rst, rst, valid_out, o_busy, data_out
   (* src = "b16_b40.py:44" *)
   reg \$next\o_busy ;
   (* src = "b16_b40.py:73" *)
-  reg \$next\temp_8 ;
+  reg [7:0] \$next\temp_8 ;
   (* src = "b16_b40.py:42" *)
   reg \$next\valid_out ;
   (* init = 1'h0 *)
@@ -101,7 +101,7 @@ module top(i_busy, valid_in, data_in, full_rst, rst, valid_out, o_busy, data_out
   input rst;
   (* init = 1'h0 *)
   (* src = "b16_b40.py:73" *)
-  reg temp_8 = 1'h0;
+  reg [7:0] temp_8 = 8'h00;
   (* src = "b16_b40.py:41" *)
   input valid_in;
   (* init = 1'h0 *)
@@ -213,13 +213,13 @@ module top(i_busy, valid_in, data_in, full_rst, rst, valid_out, o_busy, data_out
                   1'h1:
                       /* empty */;
                   1'hz:
-                      \$next\temp_8  = data_in[0];
+                      \$next\temp_8  = data_in[7:0];
                 endcase
           endcase
     endcase
     casez (full_rst)
       1'h1:
-          \$next\temp_8  = 1'h0;
+          \$next\temp_8  = 8'h00;
     endcase
   end
   always @* begin
diff --git a/verilog_src/beta_integration_fifo_lvds.v b/verilog_src/beta_integration_fifo_lvds.v
index 15bd032..520d4a2 100644
--- a/verilog_src/beta_integration_fifo_lvds.v
+++ b/verilog_src/beta_integration_fifo_lvds.v
@@ -1188,7 +1188,7 @@ module b16_b40(valid_in, data_in, full_rst, rst, full_clk, clk, data_out, valid_
   (* src = "b16_b40.py:44" *)
   reg \$next\o_busy ;
   (* src = "b16_b40.py:73" *)
-  reg \$next\temp_8 ;
+  reg [7:0] \$next\temp_8 ;
   (* src = "b16_b40.py:42" *)
   reg \$next\valid_out ;
   (* init = 1'h0 *)
@@ -1231,7 +1231,7 @@ module b16_b40(valid_in, data_in, full_rst, rst, full_clk, clk, data_out, valid_
   input rst;
   (* init = 1'h0 *)
   (* src = "b16_b40.py:73" *)
-  reg temp_8 = 1'h0;
+  reg [7:0] temp_8 = 8'h00;
   (* src = "b16_b40.py:41" *)
   input valid_in;
   (* init = 1'h0 *)
@@ -1316,13 +1316,13 @@ module b16_b40(valid_in, data_in, full_rst, rst, full_clk, clk, data_out, valid_
                   1'h1:
                       /* empty */;
                   1'hz:
-                      \$next\temp_8  = data_in[0];
+                      \$next\temp_8  = data_in[7:0];
                 endcase
           endcase
     endcase
     casez (full_rst)
       1'h1:
-          \$next\temp_8  = 1'h0;
+          \$next\temp_8  = 8'h00;
     endcase
   end
   always @* begin
-- 
2.43.0


From c67746f179298e8028121a3740192dc5060043be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:55 +0000
Subject: [PATCH 03/20] fix: only a transferred end word ends the frame in
 Markers

The end word was recognised while it was still waiting behind the start
marker, so a frame of one word was closed without emitting it.
---
 migen_src/markers.py                          | 2 +-
 verilog_src/beta_integration.v                | 2 +-
 verilog_src/beta_integration_axistream.v      | 2 +-
 verilog_src/beta_integration_fifo_axistream.v | 2 +-
 verilog_src/beta_integration_fifo_lvds.v      | 2 +-
 verilog_src/beta_integration_fullaxi.v        | 2 +-
 verilog_src/markers.v                         | 2 +-
 verilog_src/micro_integration.v               | 2 +-
 verilog_src/micro_integration_axistream.v     | 2 +-
 9 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/migen_src/markers.py b/migen_src/markers.py
index 132efb5..f093834 100644
--- a/migen_src/markers.py
+++ b/migen_src/markers.py
@@ -73,7 +73,7 @@ class Markers(Elaboratable):
         # late_data_i = Signal(16)
 
         end_cond = Signal(1)
-        m.d.sync += end_cond.eq((self.i_busy==0)&(self.valid_in==1)&(self.end_in==1))
+        m.d.sync += end_cond.eq((self.o_busy==0)&(self.valid_in==1)&(self.end_in==1))
 
         # late2_busy_i = Signal(1)
         # late2_valid_i = Signal(1)
diff --git a/verilog_src/beta_integration.v b/verilog_src/beta_integration.v
index 216c4cd..0163da7 100644
--- a/verilog_src/beta_integration.v
+++ b/verilog_src/beta_integration.v
@@ -6051,7 +6051,7 @@ module markers(valid_in, end_in, force_end_in, data_in, rst, clk, o_busy, valid_
   output valid_out;
   assign \$9  = i_busy == (* src = "markers.py:141" *) 1'h0;
   assign \$11  = counter == (* src = "markers.py:144" *) 1'h1;
-  assign \$13  = i_busy == (* src = "markers.py:76" *) 1'h0;
+  assign \$13  = o_busy == (* src = "markers.py:76" *) 1'h0;
   assign \$15  = valid_in == (* src = "markers.py:76" *) 1'h1;
   assign \$17  = \$13  & (* src = "markers.py:76" *) \$15 ;
   assign \$1  = i_busy == (* src = "markers.py:109" *) 1'h0;
diff --git a/verilog_src/beta_integration_axistream.v b/verilog_src/beta_integration_axistream.v
index 0199c4a..7eecbe8 100644
--- a/verilog_src/beta_integration_axistream.v
+++ b/verilog_src/beta_integration_axistream.v
@@ -6051,7 +6051,7 @@ module markers(valid_in, end_in, force_end_in, data_in, rst, clk, o_busy, valid_
   output valid_out;
   assign \$9  = i_busy == (* src = "markers.py:141" *) 1'h0;
   assign \$11  = counter == (* src = "markers.py:144" *) 1'h1;
-  assign \$13  = i_busy == (* src = "markers.py:76" *) 1'h0;
+  assign \$13  = o_busy == (* src = "markers.py:76" *) 1'h0;
   assign \$15  = valid_in == (* src = "markers.py:76" *) 1'h1;
   assign \$17  = \$13  & (* src = "markers.py:76" *) \$15 ;
   assign \$1  = i_busy == (* src = "markers.py:109" *) 1'h0;
diff --git a/verilog_src/beta_integration_fifo_axistream.v b/verilog_src/beta_integration_fifo_axistream.v
index ca34087..a773d12 100644
--- a/verilog_src/beta_integration_fifo_axistream.v
+++ b/verilog_src/beta_integration_fifo_axistream.v
@@ -6376,7 +6376,7 @@ module markers(valid_in, end_in, force_end_in, data_in, rst, clk, o_busy, valid_
   output valid_out;
   assign \$9  = i_busy == (* src = "markers.py:141" *) 1'h0;
   assign \$11  = counter == (* src = "markers.py:144" *) 1'h1;
-  assign \$13  = i_busy == (* src = "markers.py:76" *) 1'h0;
+  assign \$13  = o_busy == (* src = "markers.py:76" *) 1'h0;
   assign \$15  = valid_in == (* src = "markers.py:76" *) 1'h1;
   assign \$17  = \$13  & (* src = "markers.py:76" *) \$15 ;
   assign \$1  = i_busy == (* src = "markers.py:109" *) 1'h0;
diff --git a/verilog_src/beta_integration_fifo_lvds.v b/verilog_src/beta_integration_fifo_lvds.v
index 520d4a2..041afa3 100644
--- a/verilog_src/beta_integration_fifo_lvds.v
+++ b/verilog_src/beta_integration_fifo_lvds.v
@@ -6782,7 +6782,7 @@ module markers(valid_in, end_in, force_end_in, data_in, rst, clk, o_busy, valid_
   output valid_out;
   assign \$9  = i_busy == (* src = "markers.py:141" *) 1'h0;
   assign \$11  = counter == (* src = "markers.py:144" *) 1'h1;
-  assign \$13  = i_busy == (* src = "markers.py:76" *) 1'h0;
+  assign \$13  = o_busy == (* src = "markers.py:76" *) 1'h0;
   assign \$15  = valid_in == (* src = "markers.py:76" *) 1'h1;
   assign \$17  = \$13  & (* src = "markers.py:76" *) \$15 ;
   assign \$1  = i_busy == (* src = "markers.py:109" *) 1'h0;
diff --git a/verilog_src/beta_integration_fullaxi.v b/verilog_src/beta_integration_fullaxi.v
index d0304c1..8e713d7 100644
--- a/verilog_src/beta_integration_fullaxi.v
+++ b/verilog_src/beta_integration_fullaxi.v
@@ -9588,7 +9588,7 @@ module markers(valid_in, end_in, force_end_in, data_in, rst, clk, o_busy, valid_
   output valid_out;
   assign \$9  = i_busy == (* src = "markers.py:141" *) 1'h0;
   assign \$11  = counter == (* src = "markers.py:144" *) 1'h1;
-  assign \$13  = i_busy == (* src = "markers.py:76" *) 1'h0;
+  assign \$13  = o_busy == (* src = "markers.py:76" *) 1'h0;
   assign \$15  = valid_in == (* src = "markers.py:76" *) 1'h1;
   assign \$17  = \$13  & (* src = "markers.py:76" *) \$15 ;
   assign \$1  = i_busy == (* src = "markers.py:109" *) 1'h0;
diff --git a/verilog_src/markers.v b/verilog_src/markers.v
index 90e41c0..269b32f 100644
--- a/verilog_src/markers.v
+++ b/verilog_src/markers.v
@@ -80,7 +80,7 @@ module top(valid_in, end_in, force_end_in, data_in, rst, clk, valid_out, o_busy,
   output valid_out;
   assign \$9  = i_busy == (* src = "markers.py:141" *) 1'h0;
   assign \$11  = counter == (* src = "markers.py:144" *) 1'h1;
-  assign \$13  = i_busy == (* src = "markers.py:76" *) 1'h0;
+  assign \$13  = o_busy == (* src = "markers.py:76" *) 1'h0;
   assign \$15  = valid_in == (* src = "markers.py:76" *) 1'h1;
   assign \$17  = \$13  & (* src = "markers.py:76" *) \$15 ;
   assign \$1  = i_busy == (* src = "markers.py:109" *) 1'h0;
diff --git a/verilog_src/micro_integration.v b/verilog_src/micro_integration.v
index 85434da..bc9a8b8 100644
--- a/verilog_src/micro_integration.v
+++ b/verilog_src/micro_integration.v
@@ -6164,7 +6164,7 @@ module markers(valid_in, end_in, force_end_in, data_in, rst, clk, valid_out, end
   output valid_out;
   assign \$9  = i_busy == (* src = "markers.py:141" *) 1'h0;
   assign \$11  = counter == (* src = "markers.py:144" *) 1'h1;
-  assign \$13  = i_busy == (* src = "markers.py:76" *) 1'h0;
+  assign \$13  = o_busy == (* src = "markers.py:76" *) 1'h0;
   assign \$15  = valid_in == (* src = "markers.py:76" *) 1'h1;
   assign \$17  = \$13  & (* src = "markers.py:76" *) \$15 ;
   assign \$1  = i_busy == (* src = "markers.py:109" *) 1'h0;
diff --git a/verilog_src/micro_integration_axistream.v b/verilog_src/micro_integration_axistream.v
index 858088f..71dccb5 100644
--- a/verilog_src/micro_integration_axistream.v
+++ b/verilog_src/micro_integration_axistream.v
@@ -6236,7 +6236,7 @@ module markers(valid_in, end_in, force_end_in, data_in, rst, clk, valid_out, end
   output valid_out;
   assign \$9  = i_busy == (* src = "markers.py:141" *) 1'h0;
   assign \$11  = counter == (* src = "markers.py:144" *) 1'h1;
-  assign \$13  = i_busy == (* src = "markers.py:76" *) 1'h0;
+  assign \$13  = o_busy == (* src = "markers.py:76" *) 1'h0;
   assign \$15  = valid_in == (* src = "markers.py:76" *) 1'h1;
   assign \$17  = \$13  & (* src = "markers.py:76" *) \$15 ;
   assign \$1  = i_busy == (* src = "markers.py:109" *) 1'h0;
-- 
2.43.0


From 2d77f3e8f3a643042ac180f0ba91be2ec7278cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:41 +0000
Subject: [PATCH 04/20] fix: writing one half of a code-table entry keeps the
 other half

The half that is not addressed was written as zero instead of the entry's
current content.
---
 migen_src/core_axi_lite.py                | 2 +-
 verilog_src/core_axi_lite.v               | 2 +-
 verilog_src/integration_1.v               | 2 +-
 verilog_src/micro_integration.v           | 2 +-
 verilog_src/micro_integration_axistream.v | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/migen_src/core_axi_lite.py b/migen_src/core_axi_lite.py
index 6ca9560..1b2cd73 100644
--- a/migen_src/core_axi_lite.py
+++ b/migen_src/core_axi_lite.py
@@ -206,7 +206,7 @@ class CoreAxiLite(Elaboratable):
 		rp_data64_in = Signal(64)
 		rp_data64 = Signal(64)
 		m.d.comb += rp_data64.eq(self.rp_data)
-		m.d.comb += rp_data64_in.eq(0)
+		m.d.comb += rp_data64_in.eq(rp_data64)
 
 		# function that handle read/write operations on height and width register
 		def read_hw():
diff --git a/verilog_src/core_axi_lite.v b/verilog_src/core_axi_lite.v
index 983a00b..2d8d335 100644
--- a/verilog_src/core_axi_lite.v
+++ b/verilog_src/core_axi_lite.v
@@ -690,7 +690,7 @@ module top(full_clk, rp_data, s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__ar
   end
   always @* begin
     \$next\rp_data64_in  = 64'h0000000000000000;
-    \$next\rp_data64_in  = 64'h0000000000000000;
+    \$next\rp_data64_in  = rp_data64;
     casez (fsm_state)
       4'h8:
           casez (s_axi_wi__wvalid)
diff --git a/verilog_src/integration_1.v b/verilog_src/integration_1.v
index a33a869..13cce22 100644
--- a/verilog_src/integration_1.v
+++ b/verilog_src/integration_1.v
@@ -1455,7 +1455,7 @@ module core_axi_lite(rp_data, s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__ar
   end
   always @* begin
     \$next\rp_data64_in  = 64'h0000000000000000;
-    \$next\rp_data64_in  = 64'h0000000000000000;
+    \$next\rp_data64_in  = rp_data64;
     casez (fsm_state)
       4'h8:
           casez (s_axi_wi__wvalid)
diff --git a/verilog_src/micro_integration.v b/verilog_src/micro_integration.v
index bc9a8b8..30def43 100644
--- a/verilog_src/micro_integration.v
+++ b/verilog_src/micro_integration.v
@@ -1907,7 +1907,7 @@ module core_axi_lite(s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_a
   end
   always @* begin
     \$next\rp_data64_in  = 64'h0000000000000000;
-    \$next\rp_data64_in  = 64'h0000000000000000;
+    \$next\rp_data64_in  = rp_data64;
     casez (fsm_state)
       4'h8:
           casez (s_axi_wi__wvalid)
diff --git a/verilog_src/micro_integration_axistream.v b/verilog_src/micro_integration_axistream.v
index 71dccb5..ea4d02c 100644
--- a/verilog_src/micro_integration_axistream.v
+++ b/verilog_src/micro_integration_axistream.v
@@ -1907,7 +1907,7 @@ module core_axi_lite(s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_a
   end
   always @* begin
     \$next\rp_data64_in  = 64'h0000000000000000;
-    \$next\rp_data64_in  = 64'h0000000000000000;
+    \$next\rp_data64_in  = rp_data64;
     casez (fsm_state)
       4'h8:
           casez (s_axi_wi__wvalid)
-- 
2.43.0


From c899999554d7d7716c229f072bd08c605e2432dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:49 +0000
Subject: [PATCH 05/20] fix: writes to the high half of a code-table entry take
 the written data

The bytes were taken from beyond the 32-bit write data, so the high half
could only ever be written as zero.
---
 migen_src/core_axi_lite.py                |  2 +-
 verilog_src/core_axi_lite.v               | 16 ++++------------
 verilog_src/integration_1.v               | 16 ++++------------
 verilog_src/micro_integration.v           | 16 ++++------------
 verilog_src/micro_integration_axistream.v | 16 ++++------------
 5 files changed, 17 insertions(+), 49 deletions(-)

diff --git a/migen_src/core_axi_lite.py b/migen_src/core_axi_lite.py
index 1b2cd73..8be8092 100644
--- a/migen_src/core_axi_lite.py
+++ b/migen_src/core_axi_lite.py
@@ -262,7 +262,7 @@ class CoreAxiLite(Elaboratable):
 					start = 32 + i*8
 					end = start+8
 					with m.If(wstrb_v[i]):
-						m.d.comb += rp_data64_in[start:end].eq(wdata_v[start:end])
+						m.d.comb += rp_data64_in[start:end].eq(wdata_v[i*8:i*8+8])
 					with m.Else():
 						m.d.comb += rp_data64_in[start:end].eq(rp_data64[start:end])
 			m.d.full += [
diff --git a/verilog_src/core_axi_lite.v b/verilog_src/core_axi_lite.v
index 2d8d335..91d32a1 100644
--- a/verilog_src/core_axi_lite.v
+++ b/verilog_src/core_axi_lite.v
@@ -232,10 +232,6 @@ module top(full_clk, rp_data, s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__ar
   wire \$23 ;
   wire \$25 ;
   wire \$27 ;
-  wire [7:0] \$29 ;
-  wire [7:0] \$31 ;
-  wire [7:0] \$33 ;
-  wire [7:0] \$35 ;
   wire [31:0] \$37 ;
   wire [31:0] \$39 ;
   wire [31:0] \$41 ;
@@ -551,10 +547,6 @@ module top(full_clk, rp_data, s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__ar
   assign \$23  = hw_enable == (* src = "core_axi_lite.py:375" *) 1'h1;
   assign \$25  = debug_enable == (* src = "core_axi_lite.py:379" *) 1'h1;
   assign \$27  = ssss_index[0] == (* src = "core_axi_lite.py:251" *) 1'h0;
-  assign \$29  = + (* src = "nmigen/hdl/ast.py:123" *) "";
-  assign \$31  = + (* src = "nmigen/hdl/ast.py:123" *) "";
-  assign \$33  = + (* src = "nmigen/hdl/ast.py:123" *) "";
-  assign \$35  = + (* src = "nmigen/hdl/ast.py:123" *) "";
   assign \$37  = s_axi_ri__araddr >>> (* src = "core_axi_lite.py:309" *) 2'h2;
   assign \$39  = s_axi_wi__awaddr >>> (* src = "core_axi_lite.py:348" *) 2'h2;
   assign \$42  = s_axi_ri__araddr >>> (* src = "core_axi_lite.py:310" *) 2'h3;
@@ -729,25 +721,25 @@ module top(full_clk, rp_data, s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__ar
                           begin
                             casez (wstrb_v[0])
                               1'h1:
-                                  \$next\rp_data64_in [39:32] = \$29 ;
+                                  \$next\rp_data64_in [39:32] = wdata_v[7:0];
                               1'hz:
                                   \$next\rp_data64_in [39:32] = rp_data64[39:32];
                             endcase
                             casez (wstrb_v[1])
                               1'h1:
-                                  \$next\rp_data64_in [47:40] = \$31 ;
+                                  \$next\rp_data64_in [47:40] = wdata_v[15:8];
                               1'hz:
                                   \$next\rp_data64_in [47:40] = rp_data64[47:40];
                             endcase
                             casez (wstrb_v[2])
                               1'h1:
-                                  \$next\rp_data64_in [55:48] = \$33 ;
+                                  \$next\rp_data64_in [55:48] = wdata_v[23:16];
                               1'hz:
                                   \$next\rp_data64_in [55:48] = rp_data64[55:48];
                             endcase
                             casez (wstrb_v[3])
                               1'h1:
-                                  \$next\rp_data64_in [63:56] = \$35 ;
+                                  \$next\rp_data64_in [63:56] = wdata_v[31:24];
                               1'hz:
                                   \$next\rp_data64_in [63:56] = rp_data64[63:56];
                             endcase
diff --git a/verilog_src/integration_1.v b/verilog_src/integration_1.v
index 13cce22..b3007ac 100644
--- a/verilog_src/integration_1.v
+++ b/verilog_src/integration_1.v
@@ -1104,10 +1104,6 @@ module core_axi_lite(rp_data, s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__ar
   wire \$114 ;
   wire \$116 ;
   wire \$118 ;
-  wire [7:0] \$13 ;
-  wire [7:0] \$15 ;
-  wire [7:0] \$17 ;
-  wire [7:0] \$19 ;
   wire [31:0] \$21 ;
   wire [31:0] \$23 ;
   wire [31:0] \$25 ;
@@ -1360,11 +1356,7 @@ module core_axi_lite(rp_data, s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__ar
   assign \$116  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
   assign \$118  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
   assign \$11  = ssss_index[0] == (* src = "core_axi_lite.py:251" *) 1'h0;
-  assign \$13  = + (* src = "nmigen/hdl/ast.py:123" *) "";
-  assign \$15  = + (* src = "nmigen/hdl/ast.py:123" *) "";
-  assign \$17  = + (* src = "nmigen/hdl/ast.py:123" *) "";
   assign \$1  = + (* src = "core_axi_lite.py:101" *) rp_data;
-  assign \$19  = + (* src = "nmigen/hdl/ast.py:123" *) "";
   assign \$21  = s_axi_ri__araddr >>> (* src = "core_axi_lite.py:309" *) 2'h2;
   assign \$23  = s_axi_wi__awaddr >>> (* src = "core_axi_lite.py:348" *) 2'h2;
   assign \$26  = s_axi_ri__araddr >>> (* src = "core_axi_lite.py:310" *) 2'h3;
@@ -1494,25 +1486,25 @@ module core_axi_lite(rp_data, s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__ar
                           begin
                             casez (wstrb_v[0])
                               1'h1:
-                                  \$next\rp_data64_in [39:32] = \$13 ;
+                                  \$next\rp_data64_in [39:32] = wdata_v[7:0];
                               1'hz:
                                   \$next\rp_data64_in [39:32] = rp_data64[39:32];
                             endcase
                             casez (wstrb_v[1])
                               1'h1:
-                                  \$next\rp_data64_in [47:40] = \$15 ;
+                                  \$next\rp_data64_in [47:40] = wdata_v[15:8];
                               1'hz:
                                   \$next\rp_data64_in [47:40] = rp_data64[47:40];
                             endcase
                             casez (wstrb_v[2])
                               1'h1:
-                                  \$next\rp_data64_in [55:48] = \$17 ;
+                                  \$next\rp_data64_in [55:48] = wdata_v[23:16];
                               1'hz:
                                   \$next\rp_data64_in [55:48] = rp_data64[55:48];
                             endcase
                             casez (wstrb_v[3])
                               1'h1:
-                                  \$next\rp_data64_in [63:56] = \$19 ;
+                                  \$next\rp_data64_in [63:56] = wdata_v[31:24];
                               1'hz:
                                   \$next\rp_data64_in [63:56] = rp_data64[63:56];
                             endcase
diff --git a/verilog_src/micro_integration.v b/verilog_src/micro_integration.v
index 30def43..4218d0a 100644
--- a/verilog_src/micro_integration.v
+++ b/verilog_src/micro_integration.v
@@ -1125,10 +1125,6 @@ module core_axi_lite(s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_a
   wire \$114 ;
   wire \$116 ;
   wire \$118 ;
-  wire [7:0] \$13 ;
-  wire [7:0] \$15 ;
-  wire [7:0] \$17 ;
-  wire [7:0] \$19 ;
   wire [31:0] \$21 ;
   wire [31:0] \$23 ;
   wire [31:0] \$25 ;
@@ -1379,11 +1375,7 @@ module core_axi_lite(s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_a
   assign \$116  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
   assign \$118  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
   assign \$11  = ssss_index[0] == (* src = "core_axi_lite.py:251" *) 1'h0;
-  assign \$13  = + (* src = "nmigen/hdl/ast.py:123" *) "";
-  assign \$15  = + (* src = "nmigen/hdl/ast.py:123" *) "";
-  assign \$17  = + (* src = "nmigen/hdl/ast.py:123" *) "";
   assign \$1  = + (* src = "core_axi_lite.py:101" *) rp_data;
-  assign \$19  = + (* src = "nmigen/hdl/ast.py:123" *) "";
   assign \$21  = s_axi_ri__araddr >>> (* src = "core_axi_lite.py:309" *) 2'h2;
   assign \$23  = s_axi_wi__awaddr >>> (* src = "core_axi_lite.py:348" *) 2'h2;
   assign \$26  = s_axi_ri__araddr >>> (* src = "core_axi_lite.py:310" *) 2'h3;
@@ -1946,25 +1938,25 @@ module core_axi_lite(s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_a
                           begin
                             casez (wstrb_v[0])
                               1'h1:
-                                  \$next\rp_data64_in [39:32] = \$13 ;
+                                  \$next\rp_data64_in [39:32] = wdata_v[7:0];
                               1'hz:
                                   \$next\rp_data64_in [39:32] = rp_data64[39:32];
                             endcase
                             casez (wstrb_v[1])
                               1'h1:
-                                  \$next\rp_data64_in [47:40] = \$15 ;
+                                  \$next\rp_data64_in [47:40] = wdata_v[15:8];
                               1'hz:
                                   \$next\rp_data64_in [47:40] = rp_data64[47:40];
                             endcase
                             casez (wstrb_v[2])
                               1'h1:
-                                  \$next\rp_data64_in [55:48] = \$17 ;
+                                  \$next\rp_data64_in [55:48] = wdata_v[23:16];
                               1'hz:
                                   \$next\rp_data64_in [55:48] = rp_data64[55:48];
                             endcase
                             casez (wstrb_v[3])
                               1'h1:
-                                  \$next\rp_data64_in [63:56] = \$19 ;
+                                  \$next\rp_data64_in [63:56] = wdata_v[31:24];
                               1'hz:
                                   \$next\rp_data64_in [63:56] = rp_data64[63:56];
                             endcase
diff --git a/verilog_src/micro_integration_axistream.v b/verilog_src/micro_integration_axistream.v
index ea4d02c..5cfc1cf 100644
--- a/verilog_src/micro_integration_axistream.v
+++ b/verilog_src/micro_integration_axistream.v
@@ -1125,10 +1125,6 @@ module core_axi_lite(s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_a
   wire \$114 ;
   wire \$116 ;
   wire \$118 ;
-  wire [7:0] \$13 ;
-  wire [7:0] \$15 ;
-  wire [7:0] \$17 ;
-  wire [7:0] \$19 ;
   wire [31:0] \$21 ;
   wire [31:0] \$23 ;
   wire [31:0] \$25 ;
@@ -1379,11 +1375,7 @@ module core_axi_lite(s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_a
   assign \$116  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
   assign \$118  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
   assign \$11  = ssss_index[0] == (* src = "core_axi_lite.py:251" *) 1'h0;
-  assign \$13  = + (* src = "nmigen/hdl/ast.py:123" *) "";
-  assign \$15  = + (* src = "nmigen/hdl/ast.py:123" *) "";
-  assign \$17  = + (* src = "nmigen/hdl/ast.py:123" *) "";
   assign \$1  = + (* src = "core_axi_lite.py:101" *) rp_data;
-  assign \$19  = + (* src = "nmigen/hdl/ast.py:123" *) "";
   assign \$21  = s_axi_ri__araddr >>> (* src = "core_axi_lite.py:309" *) 2'h2;
   assign \$23  = s_axi_wi__awaddr >>> (* src = "core_axi_lite.py:348" *) 2'h2;
   assign \$26  = s_axi_ri__araddr >>> (* src = "core_axi_lite.py:310" *) 2'h3;
@@ -1946,25 +1938,25 @@ module core_axi_lite(s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_a
                           begin
                             casez (wstrb_v[0])
                               1'h1:
-                                  \$next\rp_data64_in [39:32] = \$13 ;
+                                  \$next\rp_data64_in [39:32] = wdata_v[7:0];
                               1'hz:
                                   \$next\rp_data64_in [39:32] = rp_data64[39:32];
                             endcase
                             casez (wstrb_v[1])
                               1'h1:
-                                  \$next\rp_data64_in [47:40] = \$15 ;
+                                  \$next\rp_data64_in [47:40] = wdata_v[15:8];
                               1'hz:
                                   \$next\rp_data64_in [47:40] = rp_data64[47:40];
                             endcase
                             casez (wstrb_v[2])
                               1'h1:
-                                  \$next\rp_data64_in [55:48] = \$17 ;
+                                  \$next\rp_data64_in [55:48] = wdata_v[23:16];
                               1'hz:
                                   \$next\rp_data64_in [55:48] = rp_data64[55:48];
                             endcase
                             casez (wstrb_v[3])
                               1'h1:
-                                  \$next\rp_data64_in [63:56] = \$19 ;
+                                  \$next\rp_data64_in [63:56] = wdata_v[31:24];
                               1'hz:
                                   \$next\rp_data64_in [63:56] = rp_data64[63:56];
                             endcase
-- 
2.43.0


From 1a8f14ca64617675a9d8f8855cb8bc34a863ca95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:56 +0000
Subject: [PATCH 06/20] fix: wlast accompanies the last beat of the burst, and
 only its transfer ends it

wlast was raised one beat too late, so the first burst had 17 beats, and while
it waited for wready the burst was withdrawn and counted as finished every cycle.
---
 migen_src/axihp_writer.py              | 20 +++++++++-----------
 verilog_src/axihp_writer.v             | 10 ++++++----
 verilog_src/beta_integration_fullaxi.v | 10 ++++++----
 3 files changed, 21 insertions(+), 19 deletions(-)

diff --git a/migen_src/axihp_writer.py b/migen_src/axihp_writer.py
index 9434fa4..032533e 100644
--- a/migen_src/axihp_writer.py
+++ b/migen_src/axihp_writer.py
@@ -87,6 +87,7 @@ class AxiHPWriter(Elaboratable):
 		data_en = Signal(1)
 		addr_en = Signal(1)
 		resp_en = Signal(1)
+		last_en = Signal(1)
 
 
 		'''---------------------
@@ -121,17 +122,14 @@ class AxiHPWriter(Elaboratable):
 		counter = Signal(4)
 		with m.If(data_en):
 			with m.If(counter==(self.data_c-1)):
-				m.d.sync += [
-					counter.eq(0),
-					wlast.eq(1),
-				]
+				m.d.sync += counter.eq(0)
 			with m.Else():
-				m.d.sync += [
-					wlast.eq(0),
-					counter.eq(counter + 1),
-				]
+				m.d.sync += counter.eq(counter + 1)
+			# next beat is the last one?
+			m.d.sync += wlast.eq(counter==(self.data_c-2))
 
 		m.d.comb += data_en.eq((wvalid==1) & (self.m_axi_wi.wready==1))
+		m.d.comb += last_en.eq((data_en==1) & (wlast==1))
 
 		# idle phase
 		with m.If(wvalid==0):
@@ -141,7 +139,7 @@ class AxiHPWriter(Elaboratable):
 
 		# active phase
 		with m.Else():
-			with m.If(wlast):
+			with m.If(last_en):
 				m.d.sync += wvalid.eq(0)
 
 		m.d.comb += [
@@ -180,11 +178,11 @@ class AxiHPWriter(Elaboratable):
 		---------------------'''
 
 		# active_proc
-		with m.If((addr_en==1) & (wlast==0)):
+		with m.If((addr_en==1) & (last_en==0)):
 			# one more
 			m.d.sync += active.eq(active + 1)
 
-		with m.Elif((addr_en==0) & (wlast==1)):
+		with m.Elif((addr_en==0) & (last_en==1)):
 			# one less
 			m.d.sync += active.eq(active - 1)
 
diff --git a/verilog_src/axihp_writer.v b/verilog_src/axihp_writer.v
index 4a97945..43e6366 100644
--- a/verilog_src/axihp_writer.v
+++ b/verilog_src/axihp_writer.v
@@ -207,6 +207,7 @@ module top(enable, addr_empty, addr_in, m_axi_wi__wready, data_empty, data_in, m
   (* init = 1'h0 *)
   (* src = "axihp_writer.py:84" *)
   reg wlast = 1'h0;
+  wire last_en;
   (* src = "axihp_writer.py:30" *)
   input [7:0] write_strobe;
   (* src = "axihp_writer.py:33" *)
@@ -226,7 +227,7 @@ module top(enable, addr_empty, addr_in, m_axi_wi__wready, data_empty, data_in, m
   assign \$1  = awvalid == (* src = "axihp_writer.py:96" *) 1'h1;
   assign \$19  = counter == (* src = "axihp_writer.py:123" *) 4'hf;
   assign \$22  = counter + (* src = "axihp_writer.py:131" *) 1'h1;
-  assign \$24  = counter == (* src = "axihp_writer.py:123" *) 4'hf;
+  assign \$24  = counter == (* src = "axihp_writer.py:123" *) 4'he;
   assign \$26  = wvalid == (* src = "axihp_writer.py:134" *) 1'h1;
   assign \$28  = m_axi_wi__wready == (* src = "axihp_writer.py:134" *) 1'h1;
   assign \$30  = \$26  & (* src = "axihp_writer.py:134" *) \$28 ;
@@ -244,11 +245,11 @@ module top(enable, addr_empty, addr_in, m_axi_wi__wready, data_empty, data_in, m
   assign \$52  = m_axi_wi__bresp != (* src = "axihp_writer.py:174" *) 1'h0;
   assign \$54  = \$50  & (* src = "axihp_writer.py:174" *) \$52 ;
   assign \$56  = addr_en == (* src = "axihp_writer.py:183" *) 1'h1;
-  assign \$58  = wlast == (* src = "axihp_writer.py:183" *) 1'h0;
+  assign \$58  = last_en == (* src = "axihp_writer.py:183" *) 1'h0;
   assign \$5  = \$1  & (* src = "axihp_writer.py:96" *) \$3 ;
   assign \$60  = \$56  & (* src = "axihp_writer.py:183" *) \$58 ;
   assign \$62  = addr_en == (* src = "axihp_writer.py:187" *) 1'h0;
-  assign \$64  = wlast == (* src = "axihp_writer.py:187" *) 1'h1;
+  assign \$64  = last_en == (* src = "axihp_writer.py:187" *) 1'h1;
   assign \$66  = \$62  & (* src = "axihp_writer.py:187" *) \$64 ;
   assign \$69  = active + (* src = "axihp_writer.py:185" *) 1'h1;
   assign \$72  = active - (* src = "axihp_writer.py:189" *) 1'h1;
@@ -491,7 +492,7 @@ module top(enable, addr_empty, addr_in, m_axi_wi__wready, data_empty, data_in, m
                 \$next\wvalid  = 1'h1;
           endcase
       1'hz:
-          casez (wlast)
+          casez (last_en)
             1'h1:
                 \$next\wvalid  = 1'h0;
           endcase
@@ -526,6 +527,7 @@ module top(enable, addr_empty, addr_in, m_axi_wi__wready, data_empty, data_in, m
   assign m_axi_wo__wvalid = \$next\m_axi_wo__wvalid ;
   assign m_axi_wo__wdata = \$next\m_axi_wo__wdata ;
   assign data_en = \$next\data_en ;
+  assign last_en = data_en & wlast;
   assign addr_enable = \$next\addr_enable ;
   assign m_axi_wo__awvalid = \$next\m_axi_wo__awvalid ;
   assign m_axi_wo__awaddr = \$next\m_axi_wo__awaddr ;
diff --git a/verilog_src/beta_integration_fullaxi.v b/verilog_src/beta_integration_fullaxi.v
index 8e713d7..fea18ea 100644
--- a/verilog_src/beta_integration_fullaxi.v
+++ b/verilog_src/beta_integration_fullaxi.v
@@ -1862,6 +1862,7 @@ module axihp_writer(enable, addr_empty, addr_in, m_axi_wi__wready, data_empty, d
   (* init = 1'h0 *)
   (* src = "axihp_writer.py:84" *)
   reg wlast = 1'h0;
+  wire last_en;
   (* src = "axihp_writer.py:30" *)
   input [7:0] write_strobe;
   (* src = "axihp_writer.py:33" *)
@@ -1881,7 +1882,7 @@ module axihp_writer(enable, addr_empty, addr_in, m_axi_wi__wready, data_empty, d
   assign \$1  = awvalid == (* src = "axihp_writer.py:96" *) 1'h1;
   assign \$19  = counter == (* src = "axihp_writer.py:123" *) 4'hf;
   assign \$22  = counter + (* src = "axihp_writer.py:131" *) 1'h1;
-  assign \$24  = counter == (* src = "axihp_writer.py:123" *) 4'hf;
+  assign \$24  = counter == (* src = "axihp_writer.py:123" *) 4'he;
   assign \$26  = wvalid == (* src = "axihp_writer.py:134" *) 1'h1;
   assign \$28  = m_axi_wi__wready == (* src = "axihp_writer.py:134" *) 1'h1;
   assign \$30  = \$26  & (* src = "axihp_writer.py:134" *) \$28 ;
@@ -1899,11 +1900,11 @@ module axihp_writer(enable, addr_empty, addr_in, m_axi_wi__wready, data_empty, d
   assign \$52  = m_axi_wi__bresp != (* src = "axihp_writer.py:174" *) 1'h0;
   assign \$54  = \$50  & (* src = "axihp_writer.py:174" *) \$52 ;
   assign \$56  = addr_en == (* src = "axihp_writer.py:183" *) 1'h1;
-  assign \$58  = wlast == (* src = "axihp_writer.py:183" *) 1'h0;
+  assign \$58  = last_en == (* src = "axihp_writer.py:183" *) 1'h0;
   assign \$5  = \$1  & (* src = "axihp_writer.py:96" *) \$3 ;
   assign \$60  = \$56  & (* src = "axihp_writer.py:183" *) \$58 ;
   assign \$62  = addr_en == (* src = "axihp_writer.py:187" *) 1'h0;
-  assign \$64  = wlast == (* src = "axihp_writer.py:187" *) 1'h1;
+  assign \$64  = last_en == (* src = "axihp_writer.py:187" *) 1'h1;
   assign \$66  = \$62  & (* src = "axihp_writer.py:187" *) \$64 ;
   assign \$69  = active + (* src = "axihp_writer.py:185" *) 1'h1;
   assign \$72  = active - (* src = "axihp_writer.py:189" *) 1'h1;
@@ -2146,7 +2147,7 @@ module axihp_writer(enable, addr_empty, addr_in, m_axi_wi__wready, data_empty, d
                 \$next\wvalid  = 1'h1;
           endcase
       1'hz:
-          casez (wlast)
+          casez (last_en)
             1'h1:
                 \$next\wvalid  = 1'h0;
           endcase
@@ -2181,6 +2182,7 @@ module axihp_writer(enable, addr_empty, addr_in, m_axi_wi__wready, data_empty, d
   assign m_axi_wo__wvalid = \$next\m_axi_wo__wvalid ;
   assign m_axi_wo__wdata = \$next\m_axi_wo__wdata ;
   assign data_en = \$next\data_en ;
+  assign last_en = data_en & wlast;
   assign addr_enable = \$next\addr_enable ;
   assign m_axi_wo__awvalid = \$next\m_axi_wo__awvalid ;
   assign m_axi_wo__awaddr = \$next\m_axi_wo__awaddr ;
-- 
2.43.0


From 7cbe59364a60b8561b698776eda0ccfb48ec1816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:56 +0000
Subject: [PATCH 07/20] fix: the burst reader looks at rlast only when a word
 is transferred

rlast has no meaning while rvalid is low; there it ended the burst and
unbalanced the count of active bursts.
---
 migen_src/axihp_reader.py              | 9 +++++----
 verilog_src/axihp_reader.v             | 8 +++++---
 verilog_src/beta_integration_fullaxi.v | 8 +++++---
 3 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/migen_src/axihp_reader.py b/migen_src/axihp_reader.py
index 3db010c..4a839e8 100644
--- a/migen_src/axihp_reader.py
+++ b/migen_src/axihp_reader.py
@@ -73,7 +73,7 @@ class AxiHPReader(Elaboratable):
 
 		data_en = Signal(1)
 		addr_en = Signal(1)
-		resp_en = Signal(1)
+		last_en = Signal(1)
 
 
 		'''---------------------
@@ -105,6 +105,7 @@ class AxiHPReader(Elaboratable):
 		---------------------'''
 
 		m.d.comb += data_en.eq((rready==1) & (self.m_axi_ri.rvalid==1))
+		m.d.comb += last_en.eq((data_en==1) & (self.m_axi_ri.rlast==1))
 
 		# idle phase
 		with m.If(rready==0):
@@ -114,7 +115,7 @@ class AxiHPReader(Elaboratable):
 
 		# active phase
 		with m.Else():
-			with m.If(self.m_axi_ri.rlast):
+			with m.If(last_en):
 				m.d.sync += rready.eq(0)
 
 		m.d.comb += [
@@ -130,11 +131,11 @@ class AxiHPReader(Elaboratable):
 		---------------------'''
 
 		# one more
-		with m.If((addr_en==1) & (self.m_axi_ri.rlast==0)):
+		with m.If((addr_en==1) & (last_en==0)):
 			m.d.sync += active.eq(active + 1)
 
 		# one less
-		with m.Elif((addr_en==0) & (self.m_axi_ri.rlast==1)):
+		with m.Elif((addr_en==0) & (last_en==1)):
 			m.d.sync += active.eq(active - 1)
 
 		m.d.comb += self.inactive.eq(active==0)
diff --git a/verilog_src/axihp_reader.v b/verilog_src/axihp_reader.v
index 76e7873..d3cf46e 100644
--- a/verilog_src/axihp_reader.v
+++ b/verilog_src/axihp_reader.v
@@ -122,6 +122,7 @@ module top(enable, addr_empty, addr_in, m_axi_ri__rvalid, data_full, m_axi_ri__r
   input [63:0] m_axi_ri__rdata;
   (* src = "nmigen/hdl/rec.py:84" *)
   input m_axi_ri__rlast;
+  wire last_en;
   (* src = "nmigen/hdl/rec.py:84" *)
   input [1:0] m_axi_ri__rresp;
   (* src = "nmigen/hdl/rec.py:84" *)
@@ -169,10 +170,10 @@ module top(enable, addr_empty, addr_in, m_axi_ri__rvalid, data_full, m_axi_ri__r
   assign \$37  = \$33  & (* src = "axihp_reader.py:121" *) \$35 ;
   assign \$3  = m_axi_ri__arready == (* src = "axihp_reader.py:83" *) 1'h1;
   assign \$39  = addr_en == (* src = "axihp_reader.py:133" *) 1'h1;
-  assign \$41  = m_axi_ri__rlast == (* src = "axihp_reader.py:133" *) 1'h0;
+  assign \$41  = last_en == (* src = "axihp_reader.py:133" *) 1'h0;
   assign \$43  = \$39  & (* src = "axihp_reader.py:133" *) \$41 ;
   assign \$45  = addr_en == (* src = "axihp_reader.py:137" *) 1'h0;
-  assign \$47  = m_axi_ri__rlast == (* src = "axihp_reader.py:137" *) 1'h1;
+  assign \$47  = last_en == (* src = "axihp_reader.py:137" *) 1'h1;
   assign \$49  = \$45  & (* src = "axihp_reader.py:137" *) \$47 ;
   assign \$52  = active + (* src = "axihp_reader.py:134" *) 1'h1;
   assign \$55  = active - (* src = "axihp_reader.py:138" *) 1'h1;
@@ -301,7 +302,7 @@ module top(enable, addr_empty, addr_in, m_axi_ri__rvalid, data_full, m_axi_ri__r
                 \$next\rready  = 1'h1;
           endcase
       1'hz:
-          casez (m_axi_ri__rlast)
+          casez (last_en)
             1'h1:
                 \$next\rready  = 1'h0;
           endcase
@@ -335,6 +336,7 @@ module top(enable, addr_empty, addr_in, m_axi_ri__rvalid, data_full, m_axi_ri__r
   assign data_out = \$next\data_out ;
   assign reader_error = \$next\reader_error ;
   assign data_en = \$next\data_en ;
+  assign last_en = data_en & m_axi_ri__rlast;
   assign addr_enable = \$next\addr_enable ;
   assign m_axi_ro__arvalid = \$next\m_axi_ro__arvalid ;
   assign m_axi_ro__araddr = \$next\m_axi_ro__araddr ;
diff --git a/verilog_src/beta_integration_fullaxi.v b/verilog_src/beta_integration_fullaxi.v
index fea18ea..bcc0a6f 100644
--- a/verilog_src/beta_integration_fullaxi.v
+++ b/verilog_src/beta_integration_fullaxi.v
@@ -1436,6 +1436,7 @@ module axihp_reader(enable, addr_empty, addr_in, m_axi_ri__rvalid, data_full, m_
   input [63:0] m_axi_ri__rdata;
   (* src = "nmigen/hdl/rec.py:84" *)
   input m_axi_ri__rlast;
+  wire last_en;
   (* src = "nmigen/hdl/rec.py:84" *)
   input [1:0] m_axi_ri__rresp;
   (* src = "nmigen/hdl/rec.py:84" *)
@@ -1483,10 +1484,10 @@ module axihp_reader(enable, addr_empty, addr_in, m_axi_ri__rvalid, data_full, m_
   assign \$37  = \$33  & (* src = "axihp_reader.py:121" *) \$35 ;
   assign \$3  = m_axi_ri__arready == (* src = "axihp_reader.py:83" *) 1'h1;
   assign \$39  = addr_en == (* src = "axihp_reader.py:133" *) 1'h1;
-  assign \$41  = m_axi_ri__rlast == (* src = "axihp_reader.py:133" *) 1'h0;
+  assign \$41  = last_en == (* src = "axihp_reader.py:133" *) 1'h0;
   assign \$43  = \$39  & (* src = "axihp_reader.py:133" *) \$41 ;
   assign \$45  = addr_en == (* src = "axihp_reader.py:137" *) 1'h0;
-  assign \$47  = m_axi_ri__rlast == (* src = "axihp_reader.py:137" *) 1'h1;
+  assign \$47  = last_en == (* src = "axihp_reader.py:137" *) 1'h1;
   assign \$49  = \$45  & (* src = "axihp_reader.py:137" *) \$47 ;
   assign \$52  = active + (* src = "axihp_reader.py:134" *) 1'h1;
   assign \$55  = active - (* src = "axihp_reader.py:138" *) 1'h1;
@@ -1615,7 +1616,7 @@ module axihp_reader(enable, addr_empty, addr_in, m_axi_ri__rvalid, data_full, m_
                 \$next\rready  = 1'h1;
           endcase
       1'hz:
-          casez (m_axi_ri__rlast)
+          casez (last_en)
             1'h1:
                 \$next\rready  = 1'h0;
           endcase
@@ -1649,6 +1650,7 @@ module axihp_reader(enable, addr_empty, addr_in, m_axi_ri__rvalid, data_full, m_
   assign data_out = \$next\data_out ;
   assign reader_error = \$next\reader_error ;
   assign data_en = \$next\data_en ;
+  assign last_en = data_en & m_axi_ri__rlast;
   assign addr_enable = \$next\addr_enable ;
   assign m_axi_ro__arvalid = \$next\m_axi_ro__arvalid ;
   assign m_axi_ro__araddr = \$next\m_axi_ro__araddr ;
-- 
2.43.0


From c5fa93e7495660b55d6aa52598ff2706b35c3e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:43 +0000
Subject: [PATCH 08/20] fix: micro integration wires the end flag and
 back-pressure through the stuffing stages

fix_0xff/fix_0xff2 never saw the end of the scan and fix_0xff2 ignored the
busy flag of the markers stage, so frames never ended and words were lost.
---
 migen_src/micro_integration.py            |  4 +-
 verilog_src/micro_integration.v           | 50 ++++++++++++++-----
 verilog_src/micro_integration_axistream.v | 58 +++++++++++++++--------
 3 files changed, 78 insertions(+), 34 deletions(-)

diff --git a/migen_src/micro_integration.py b/migen_src/micro_integration.py
index 315cffb..f5b07dd 100644
--- a/migen_src/micro_integration.py
+++ b/migen_src/micro_integration.py
@@ -101,6 +101,7 @@ class MicroIntegration(Elaboratable):
 		m.d.comb += [
 			fix_0xff.data_in.eq(integration_3.data_out),
 			fix_0xff.valid_in.eq(integration_3.valid_out),
+			fix_0xff.end_in.eq(integration_3.end_out),
 			fix_0xff.i_busy.eq(fix_0xff2.o_busy),
 		]
 
@@ -108,7 +109,8 @@ class MicroIntegration(Elaboratable):
 		m.d.comb += [
 			fix_0xff2.data_in.eq(fix_0xff.data_out),
 			fix_0xff2.valid_in.eq(fix_0xff.valid_out),
-			fix_0xff2.i_busy.eq(self.busy_in),
+			fix_0xff2.end_in.eq(fix_0xff.end_out),
+			fix_0xff2.i_busy.eq(markers.o_busy),
 			fix_0xff2.data_in_ctr.eq(fix_0xff.data_out_ctr),
 		]
 
diff --git a/verilog_src/micro_integration.v b/verilog_src/micro_integration.v
index 4218d0a..0e04621 100644
--- a/verilog_src/micro_integration.v
+++ b/verilog_src/micro_integration.v
@@ -2516,7 +2516,7 @@ endmodule
 
 (* \nmigen.hierarchy  = "top.fix_0xff" *)
 (* generator = "nMigen" *)
-module fix_0xff(valid_in, end_in, data_in, rst, clk, valid_out, data_out, data_out_ctr, o_busy, i_busy);
+module fix_0xff(valid_in, end_in, data_in, rst, clk, valid_out, end_out, data_out, data_out_ctr, o_busy, i_busy);
   wire \$1 ;
   wire \$101 ;
   wire \$103 ;
@@ -2634,6 +2634,7 @@ module fix_0xff(valid_in, end_in, data_in, rst, clk, valid_out, data_out, data_o
   input end_in;
   (* init = 1'h0 *)
   (* src = "fix_0xff.py:82" *)
+  output end_out;
   reg end_out = 1'h0;
   (* init = 1'h0 *)
   (* src = "fix_0xff.py:98" *)
@@ -5761,7 +5762,7 @@ endmodule
 
 (* \nmigen.hierarchy  = "top.integration_3" *)
 (* generator = "nMigen" *)
-module integration_3(valid_in, busy_in, rst, clk, s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_axi_ri__rready, s_axi_wi__awaddr, s_axi_wi__wvalid, s_axi_wi__wdata, s_axi_wi__wstrb, s_axi_wi__bready, full_rst, full_clk, data_out, valid_out, nready, fend_out, pixel_in);
+module integration_3(valid_in, busy_in, rst, clk, s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_axi_ri__rready, s_axi_wi__awaddr, s_axi_wi__wvalid, s_axi_wi__wdata, s_axi_wi__wstrb, s_axi_wi__bready, full_rst, full_clk, data_out, valid_out, end_out, nready, fend_out, pixel_in);
   (* src = "integration_3.py:25" *)
   reg [15:0] \$next\data_out ;
   (* src = "integration_3.py:30" *)
@@ -5793,7 +5794,7 @@ module integration_3(valid_in, busy_in, rst, clk, s_axi_ri__arvalid, s_axi_wi__a
   (* src = "integration_3.py:25" *)
   output [15:0] data_out;
   (* src = "integration_3.py:30" *)
-  wire end_out;
+  output end_out;
   (* src = "integration_1.py:35" *)
   output fend_out;
   (* src = "clk_domains.py:4" *)
@@ -6079,7 +6080,7 @@ endmodule
 
 (* \nmigen.hierarchy  = "top.markers" *)
 (* generator = "nMigen" *)
-module markers(valid_in, end_in, force_end_in, data_in, rst, clk, valid_out, end_out, data_out, i_busy);
+module markers(valid_in, end_in, force_end_in, data_in, rst, clk, o_busy, valid_out, end_out, data_out, i_busy);
   wire \$1 ;
   wire \$11 ;
   wire \$13 ;
@@ -6147,7 +6148,7 @@ module markers(valid_in, end_in, force_end_in, data_in, rst, clk, valid_out, end
   (* src = "markers.py:49" *)
   input i_busy;
   (* src = "markers.py:48" *)
-  wire o_busy;
+  output o_busy;
   (* src = "clk_domains.py:5" *)
   input rst;
   (* src = "markers.py:41" *)
@@ -7395,7 +7396,7 @@ endmodule
 (* \nmigen.hierarchy  = "top" *)
 (* top =  1  *)
 (* generator = "nMigen" *)
-module top(full_rst, busy_in, pixel_in, valid_in, s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_axi_ri__rready, s_axi_wi__awaddr, s_axi_wi__wvalid, s_axi_wi__wdata, s_axi_wi__wstrb, s_axi_wi__bready, end_in, \end_in$1 , valid_out, end_out, data_out, nready, full_clk);
+module top(full_rst, busy_in, pixel_in, valid_in, s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_axi_ri__rready, s_axi_wi__awaddr, s_axi_wi__wvalid, s_axi_wi__wdata, s_axi_wi__wstrb, s_axi_wi__bready, valid_out, end_out, data_out, nready, full_clk);
   wire \$2 ;
   wire \$4 ;
   wire \$6 ;
@@ -7414,12 +7415,16 @@ module top(full_rst, busy_in, pixel_in, valid_in, s_axi_ri__arvalid, s_axi_wi__a
   reg [31:0] \$next\fix_0xff2_data_in ;
   (* src = "fix_0xff2.py:150" *)
   reg [2:0] \$next\fix_0xff2_data_in_ctr ;
+  (* src = "fix_0xff2.py:159" *)
+  reg \$next\fix_0xff2_end_in ;
   (* src = "fix_0xff2.py:163" *)
   reg \$next\fix_0xff2_i_busy ;
   (* src = "fix_0xff2.py:156" *)
   reg \$next\fix_0xff2_valid_in ;
   (* src = "fix_0xff.py:69" *)
   reg [15:0] \$next\fix_0xff_data_in ;
+  (* src = "fix_0xff.py:81" *)
+  reg \$next\fix_0xff_end_in ;
   (* src = "fix_0xff.py:79" *)
   reg \$next\fix_0xff_i_busy ;
   (* src = "fix_0xff.py:76" *)
@@ -7460,10 +7465,6 @@ module top(full_rst, busy_in, pixel_in, valid_in, s_axi_ri__arvalid, s_axi_wi__a
   input busy_in;
   (* src = "micro_integration.py:35" *)
   output [15:0] data_out;
-  (* src = "fix_0xff.py:81" *)
-  input end_in;
-  (* src = "fix_0xff2.py:159" *)
-  input \end_in$1 ;
   (* src = "micro_integration.py:40" *)
   output end_out;
   (* src = "fix_0xff2.py:149" *)
@@ -7472,6 +7473,8 @@ module top(full_rst, busy_in, pixel_in, valid_in, s_axi_ri__arvalid, s_axi_wi__a
   wire [2:0] fix_0xff2_data_in_ctr;
   (* src = "fix_0xff2.py:153" *)
   wire [15:0] fix_0xff2_data_out;
+  (* src = "fix_0xff2.py:159" *)
+  wire fix_0xff2_end_in;
   (* src = "fix_0xff2.py:160" *)
   wire fix_0xff2_end_out;
   (* src = "fix_0xff2.py:163" *)
@@ -7488,6 +7491,10 @@ module top(full_rst, busy_in, pixel_in, valid_in, s_axi_ri__arvalid, s_axi_wi__a
   wire [31:0] fix_0xff_data_out;
   (* src = "fix_0xff.py:73" *)
   wire [2:0] fix_0xff_data_out_ctr;
+  (* src = "fix_0xff.py:81" *)
+  wire fix_0xff_end_in;
+  (* src = "fix_0xff.py:82" *)
+  wire fix_0xff_end_out;
   (* src = "fix_0xff.py:79" *)
   wire fix_0xff_i_busy;
   (* src = "fix_0xff.py:78" *)
@@ -7506,6 +7513,8 @@ module top(full_rst, busy_in, pixel_in, valid_in, s_axi_ri__arvalid, s_axi_wi__a
   wire integration_3_clk;
   (* src = "integration_3.py:25" *)
   wire [15:0] integration_3_data_out;
+  (* src = "integration_3.py:30" *)
+  wire integration_3_end_out;
   (* src = "integration_1.py:35" *)
   wire integration_3_fend_out;
   (* src = "integration_3.py:31" *)
@@ -7530,6 +7539,8 @@ module top(full_rst, busy_in, pixel_in, valid_in, s_axi_ri__arvalid, s_axi_wi__a
   wire markers_force_end_in;
   (* src = "markers.py:49" *)
   wire markers_i_busy;
+  (* src = "markers.py:48" *)
+  wire markers_o_busy;
   (* src = "markers.py:41" *)
   wire markers_valid_in;
   (* src = "markers.py:42" *)
@@ -7577,7 +7588,8 @@ module top(full_rst, busy_in, pixel_in, valid_in, s_axi_ri__arvalid, s_axi_wi__a
     .data_in(fix_0xff_data_in),
     .data_out(fix_0xff_data_out),
     .data_out_ctr(fix_0xff_data_out_ctr),
-    .end_in(end_in),
+    .end_in(fix_0xff_end_in),
+    .end_out(fix_0xff_end_out),
     .i_busy(fix_0xff_i_busy),
     .o_busy(fix_0xff_o_busy),
     .rst(integration_3_rst),
@@ -7589,7 +7601,7 @@ module top(full_rst, busy_in, pixel_in, valid_in, s_axi_ri__arvalid, s_axi_wi__a
     .data_in(fix_0xff2_data_in),
     .data_in_ctr(fix_0xff2_data_in_ctr),
     .data_out(fix_0xff2_data_out),
-    .end_in(\end_in$1 ),
+    .end_in(fix_0xff2_end_in),
     .end_out(fix_0xff2_end_out),
     .i_busy(fix_0xff2_i_busy),
     .o_busy(fix_0xff2_o_busy),
@@ -7601,6 +7613,7 @@ module top(full_rst, busy_in, pixel_in, valid_in, s_axi_ri__arvalid, s_axi_wi__a
     .busy_in(integration_3_busy_in),
     .clk(integration_3_clk),
     .data_out(integration_3_data_out),
+    .end_out(integration_3_end_out),
     .fend_out(integration_3_fend_out),
     .full_clk(full_clk),
     .full_rst(full_rst),
@@ -7627,6 +7640,7 @@ module top(full_rst, busy_in, pixel_in, valid_in, s_axi_ri__arvalid, s_axi_wi__a
     .end_out(markers_end_out),
     .force_end_in(markers_force_end_in),
     .i_busy(markers_i_busy),
+    .o_busy(markers_o_busy),
     .rst(integration_3_rst),
     .valid_in(markers_valid_in),
     .valid_out(markers_valid_out)
@@ -7651,9 +7665,13 @@ module top(full_rst, busy_in, pixel_in, valid_in, s_axi_ri__arvalid, s_axi_wi__a
     \$next\fix_0xff2_valid_in  = 1'h0;
     \$next\fix_0xff2_valid_in  = fix_0xff_valid_out;
   end
+  always @* begin
+    \$next\fix_0xff2_end_in  = 1'h0;
+    \$next\fix_0xff2_end_in  = fix_0xff_end_out;
+  end
   always @* begin
     \$next\fix_0xff2_i_busy  = 1'h0;
-    \$next\fix_0xff2_i_busy  = busy_in;
+    \$next\fix_0xff2_i_busy  = markers_o_busy;
   end
   always @* begin
     \$next\fix_0xff2_data_in_ctr  = 3'h0;
@@ -7727,6 +7745,10 @@ module top(full_rst, busy_in, pixel_in, valid_in, s_axi_ri__arvalid, s_axi_wi__a
     \$next\fix_0xff_valid_in  = 1'h0;
     \$next\fix_0xff_valid_in  = integration_3_valid_out;
   end
+  always @* begin
+    \$next\fix_0xff_end_in  = 1'h0;
+    \$next\fix_0xff_end_in  = integration_3_end_out;
+  end
   assign nready = \$next\nready ;
   assign end_out = \$next\end_out ;
   assign valid_out = \$next\valid_out ;
@@ -7738,9 +7760,11 @@ module top(full_rst, busy_in, pixel_in, valid_in, s_axi_ri__arvalid, s_axi_wi__a
   assign markers_data_in = \$next\markers_data_in ;
   assign fix_0xff2_data_in_ctr = \$next\fix_0xff2_data_in_ctr ;
   assign fix_0xff2_i_busy = \$next\fix_0xff2_i_busy ;
+  assign fix_0xff2_end_in = \$next\fix_0xff2_end_in ;
   assign fix_0xff2_valid_in = \$next\fix_0xff2_valid_in ;
   assign fix_0xff2_data_in = \$next\fix_0xff2_data_in ;
   assign fix_0xff_i_busy = \$next\fix_0xff_i_busy ;
+  assign fix_0xff_end_in = \$next\fix_0xff_end_in ;
   assign fix_0xff_valid_in = \$next\fix_0xff_valid_in ;
   assign fix_0xff_data_in = \$next\fix_0xff_data_in ;
   assign integration_3_busy_in = \$next\integration_3_busy_in ;
diff --git a/verilog_src/micro_integration_axistream.v b/verilog_src/micro_integration_axistream.v
index 5cfc1cf..fdb247a 100644
--- a/verilog_src/micro_integration_axistream.v
+++ b/verilog_src/micro_integration_axistream.v
@@ -2516,7 +2516,7 @@ endmodule
 
 (* \nmigen.hierarchy  = "top.top_module.fix_0xff" *)
 (* generator = "nMigen" *)
-module fix_0xff(valid_in, end_in, data_in, rst, clk, valid_out, data_out, data_out_ctr, o_busy, i_busy);
+module fix_0xff(valid_in, end_in, data_in, rst, clk, valid_out, end_out, data_out, data_out_ctr, o_busy, i_busy);
   wire \$1 ;
   wire \$101 ;
   wire \$103 ;
@@ -2634,6 +2634,7 @@ module fix_0xff(valid_in, end_in, data_in, rst, clk, valid_out, data_out, data_o
   input end_in;
   (* init = 1'h0 *)
   (* src = "fix_0xff.py:82" *)
+  output end_out;
   reg end_out = 1'h0;
   (* init = 1'h0 *)
   (* src = "fix_0xff.py:98" *)
@@ -5809,7 +5810,7 @@ endmodule
 
 (* \nmigen.hierarchy  = "top.top_module.integration_3" *)
 (* generator = "nMigen" *)
-module integration_3(valid_in, busy_in, rst, clk, s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_axi_ri__rready, s_axi_wi__awaddr, s_axi_wi__wvalid, s_axi_wi__wdata, s_axi_wi__wstrb, s_axi_wi__bready, full_rst, full_clk, data_out, valid_out, nready, fend_out, s_axi_ro__arready, s_axi_ro__rvalid, s_axi_wo__awready, s_axi_wo__wready, s_axi_wo__bvalid, s_axi_ro__rdata, s_axi_ro__rresp, s_axi_wo__bresp, pixel_in);
+module integration_3(valid_in, busy_in, rst, clk, s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_axi_ri__rready, s_axi_wi__awaddr, s_axi_wi__wvalid, s_axi_wi__wdata, s_axi_wi__wstrb, s_axi_wi__bready, full_rst, full_clk, data_out, valid_out, end_out, nready, fend_out, s_axi_ro__arready, s_axi_ro__rvalid, s_axi_wo__awready, s_axi_wo__wready, s_axi_wo__bvalid, s_axi_ro__rdata, s_axi_ro__rresp, s_axi_wo__bresp, pixel_in);
   (* src = "integration_3.py:25" *)
   reg [15:0] \$next\data_out ;
   (* src = "integration_3.py:30" *)
@@ -5841,7 +5842,7 @@ module integration_3(valid_in, busy_in, rst, clk, s_axi_ri__arvalid, s_axi_wi__a
   (* src = "integration_3.py:25" *)
   output [15:0] data_out;
   (* src = "integration_3.py:30" *)
-  wire end_out;
+  output end_out;
   (* src = "integration_1.py:35" *)
   output fend_out;
   (* src = "clk_domains.py:4" *)
@@ -6151,7 +6152,7 @@ endmodule
 
 (* \nmigen.hierarchy  = "top.top_module.markers" *)
 (* generator = "nMigen" *)
-module markers(valid_in, end_in, force_end_in, data_in, rst, clk, valid_out, end_out, data_out, i_busy);
+module markers(valid_in, end_in, force_end_in, data_in, rst, clk, o_busy, valid_out, end_out, data_out, i_busy);
   wire \$1 ;
   wire \$11 ;
   wire \$13 ;
@@ -6219,7 +6220,7 @@ module markers(valid_in, end_in, force_end_in, data_in, rst, clk, valid_out, end
   (* src = "markers.py:49" *)
   input i_busy;
   (* src = "markers.py:48" *)
-  wire o_busy;
+  output o_busy;
   (* src = "clk_domains.py:5" *)
   input rst;
   (* src = "markers.py:41" *)
@@ -7467,7 +7468,7 @@ endmodule
 (* \nmigen.hierarchy  = "top" *)
 (* top =  1  *)
 (* generator = "nMigen" *)
-module top(s_tdata, s_tlast, s_tvalid, full_clk, full_rst, s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_axi_ri__rready, s_axi_wi__awaddr, s_axi_wi__wvalid, s_axi_wi__wdata, s_axi_wi__wstrb, s_axi_wi__bready, end_in, \end_in$1 , m_tvalid, m_tlast, m_tdata, s_tready, s_axi_ro__arready, s_axi_ro__rdata, s_axi_ro__rresp, s_axi_ro__rvalid, s_axi_wo__awready, s_axi_wo__wready, s_axi_wo__bresp, s_axi_wo__bvalid, m_tready);
+module top(s_tdata, s_tlast, s_tvalid, full_clk, full_rst, s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_axi_ri__rready, s_axi_wi__awaddr, s_axi_wi__wvalid, s_axi_wi__wdata, s_axi_wi__wstrb, s_axi_wi__bready, m_tvalid, m_tlast, m_tdata, s_tready, s_axi_ro__arready, s_axi_ro__rdata, s_axi_ro__rresp, s_axi_ro__rvalid, s_axi_wo__awready, s_axi_wo__wready, s_axi_wo__bresp, s_axi_wo__bvalid, m_tready);
   wire \$2 ;
   wire \$4 ;
   (* src = "micro_integration_axistream.py:15" *)
@@ -7486,10 +7487,6 @@ module top(s_tdata, s_tlast, s_tvalid, full_clk, full_rst, s_axi_ri__arvalid, s_
   reg [11:0] \$next\top_module_pixel_in ;
   (* src = "micro_integration.py:38" *)
   reg \$next\top_module_valid_in ;
-  (* src = "fix_0xff.py:81" *)
-  input end_in;
-  (* src = "fix_0xff2.py:159" *)
-  input \end_in$1 ;
   (* src = "clk_domains.py:4" *)
   input full_clk;
   (* src = "clk_domains.py:4" *)
@@ -7565,8 +7562,6 @@ module top(s_tdata, s_tlast, s_tvalid, full_clk, full_rst, s_axi_ri__arvalid, s_
   top_module top_module (
     .busy_in(top_module_busy_in),
     .data_out(top_module_data_out),
-    .end_in(end_in),
-    .\end_in$1 (\end_in$1 ),
     .end_out(top_module_end_out),
     .full_clk(full_clk),
     .full_rst(full_rst),
@@ -7636,7 +7631,7 @@ endmodule
 
 (* \nmigen.hierarchy  = "top.top_module" *)
 (* generator = "nMigen" *)
-module top_module(full_rst, busy_in, pixel_in, valid_in, s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_axi_ri__rready, s_axi_wi__awaddr, s_axi_wi__wvalid, s_axi_wi__wdata, s_axi_wi__wstrb, s_axi_wi__bready, end_in, \end_in$1 , data_out, valid_out, end_out, nready, s_axi_ro__arready, s_axi_ro__rvalid, s_axi_wo__awready, s_axi_wo__wready, s_axi_wo__bvalid, s_axi_ro__rdata, s_axi_ro__rresp, s_axi_wo__bresp, full_clk);
+module top_module(full_rst, busy_in, pixel_in, valid_in, s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_axi_ri__rready, s_axi_wi__awaddr, s_axi_wi__wvalid, s_axi_wi__wdata, s_axi_wi__wstrb, s_axi_wi__bready, data_out, valid_out, end_out, nready, s_axi_ro__arready, s_axi_ro__rvalid, s_axi_wo__awready, s_axi_wo__wready, s_axi_wo__bvalid, s_axi_ro__rdata, s_axi_ro__rresp, s_axi_wo__bresp, full_clk);
   wire \$2 ;
   wire \$4 ;
   wire \$6 ;
@@ -7655,12 +7650,16 @@ module top_module(full_rst, busy_in, pixel_in, valid_in, s_axi_ri__arvalid, s_ax
   reg [31:0] \$next\fix_0xff2_data_in ;
   (* src = "fix_0xff2.py:150" *)
   reg [2:0] \$next\fix_0xff2_data_in_ctr ;
+  (* src = "fix_0xff2.py:159" *)
+  reg \$next\fix_0xff2_end_in ;
   (* src = "fix_0xff2.py:163" *)
   reg \$next\fix_0xff2_i_busy ;
   (* src = "fix_0xff2.py:156" *)
   reg \$next\fix_0xff2_valid_in ;
   (* src = "fix_0xff.py:69" *)
   reg [15:0] \$next\fix_0xff_data_in ;
+  (* src = "fix_0xff.py:81" *)
+  reg \$next\fix_0xff_end_in ;
   (* src = "fix_0xff.py:79" *)
   reg \$next\fix_0xff_i_busy ;
   (* src = "fix_0xff.py:76" *)
@@ -7701,10 +7700,6 @@ module top_module(full_rst, busy_in, pixel_in, valid_in, s_axi_ri__arvalid, s_ax
   input busy_in;
   (* src = "micro_integration.py:35" *)
   output [15:0] data_out;
-  (* src = "fix_0xff.py:81" *)
-  input end_in;
-  (* src = "fix_0xff2.py:159" *)
-  input \end_in$1 ;
   (* src = "micro_integration.py:40" *)
   output end_out;
   (* src = "fix_0xff2.py:149" *)
@@ -7713,6 +7708,8 @@ module top_module(full_rst, busy_in, pixel_in, valid_in, s_axi_ri__arvalid, s_ax
   wire [2:0] fix_0xff2_data_in_ctr;
   (* src = "fix_0xff2.py:153" *)
   wire [15:0] fix_0xff2_data_out;
+  (* src = "fix_0xff2.py:159" *)
+  wire fix_0xff2_end_in;
   (* src = "fix_0xff2.py:160" *)
   wire fix_0xff2_end_out;
   (* src = "fix_0xff2.py:163" *)
@@ -7729,6 +7726,10 @@ module top_module(full_rst, busy_in, pixel_in, valid_in, s_axi_ri__arvalid, s_ax
   wire [31:0] fix_0xff_data_out;
   (* src = "fix_0xff.py:73" *)
   wire [2:0] fix_0xff_data_out_ctr;
+  (* src = "fix_0xff.py:81" *)
+  wire fix_0xff_end_in;
+  (* src = "fix_0xff.py:82" *)
+  wire fix_0xff_end_out;
   (* src = "fix_0xff.py:79" *)
   wire fix_0xff_i_busy;
   (* src = "fix_0xff.py:78" *)
@@ -7747,6 +7748,8 @@ module top_module(full_rst, busy_in, pixel_in, valid_in, s_axi_ri__arvalid, s_ax
   wire integration_3_clk;
   (* src = "integration_3.py:25" *)
   wire [15:0] integration_3_data_out;
+  (* src = "integration_3.py:30" *)
+  wire integration_3_end_out;
   (* src = "integration_1.py:35" *)
   wire integration_3_fend_out;
   (* src = "integration_3.py:31" *)
@@ -7771,6 +7774,8 @@ module top_module(full_rst, busy_in, pixel_in, valid_in, s_axi_ri__arvalid, s_ax
   wire markers_force_end_in;
   (* src = "markers.py:49" *)
   wire markers_i_busy;
+  (* src = "markers.py:48" *)
+  wire markers_o_busy;
   (* src = "markers.py:41" *)
   wire markers_valid_in;
   (* src = "markers.py:42" *)
@@ -7834,7 +7839,8 @@ module top_module(full_rst, busy_in, pixel_in, valid_in, s_axi_ri__arvalid, s_ax
     .data_in(fix_0xff_data_in),
     .data_out(fix_0xff_data_out),
     .data_out_ctr(fix_0xff_data_out_ctr),
-    .end_in(end_in),
+    .end_in(fix_0xff_end_in),
+    .end_out(fix_0xff_end_out),
     .i_busy(fix_0xff_i_busy),
     .o_busy(fix_0xff_o_busy),
     .rst(integration_3_rst),
@@ -7846,7 +7852,7 @@ module top_module(full_rst, busy_in, pixel_in, valid_in, s_axi_ri__arvalid, s_ax
     .data_in(fix_0xff2_data_in),
     .data_in_ctr(fix_0xff2_data_in_ctr),
     .data_out(fix_0xff2_data_out),
-    .end_in(\end_in$1 ),
+    .end_in(fix_0xff2_end_in),
     .end_out(fix_0xff2_end_out),
     .i_busy(fix_0xff2_i_busy),
     .o_busy(fix_0xff2_o_busy),
@@ -7858,6 +7864,7 @@ module top_module(full_rst, busy_in, pixel_in, valid_in, s_axi_ri__arvalid, s_ax
     .busy_in(integration_3_busy_in),
     .clk(integration_3_clk),
     .data_out(integration_3_data_out),
+    .end_out(integration_3_end_out),
     .fend_out(integration_3_fend_out),
     .full_clk(full_clk),
     .full_rst(full_rst),
@@ -7892,6 +7899,7 @@ module top_module(full_rst, busy_in, pixel_in, valid_in, s_axi_ri__arvalid, s_ax
     .end_out(markers_end_out),
     .force_end_in(markers_force_end_in),
     .i_busy(markers_i_busy),
+    .o_busy(markers_o_busy),
     .rst(integration_3_rst),
     .valid_in(markers_valid_in),
     .valid_out(markers_valid_out)
@@ -7916,9 +7924,13 @@ module top_module(full_rst, busy_in, pixel_in, valid_in, s_axi_ri__arvalid, s_ax
     \$next\fix_0xff2_valid_in  = 1'h0;
     \$next\fix_0xff2_valid_in  = fix_0xff_valid_out;
   end
+  always @* begin
+    \$next\fix_0xff2_end_in  = 1'h0;
+    \$next\fix_0xff2_end_in  = fix_0xff_end_out;
+  end
   always @* begin
     \$next\fix_0xff2_i_busy  = 1'h0;
-    \$next\fix_0xff2_i_busy  = busy_in;
+    \$next\fix_0xff2_i_busy  = markers_o_busy;
   end
   always @* begin
     \$next\fix_0xff2_data_in_ctr  = 3'h0;
@@ -7992,6 +8004,10 @@ module top_module(full_rst, busy_in, pixel_in, valid_in, s_axi_ri__arvalid, s_ax
     \$next\fix_0xff_valid_in  = 1'h0;
     \$next\fix_0xff_valid_in  = integration_3_valid_out;
   end
+  always @* begin
+    \$next\fix_0xff_end_in  = 1'h0;
+    \$next\fix_0xff_end_in  = integration_3_end_out;
+  end
   assign nready = \$next\nready ;
   assign end_out = \$next\end_out ;
   assign valid_out = \$next\valid_out ;
@@ -8003,9 +8019,11 @@ module top_module(full_rst, busy_in, pixel_in, valid_in, s_axi_ri__arvalid, s_ax
   assign markers_data_in = \$next\markers_data_in ;
   assign fix_0xff2_data_in_ctr = \$next\fix_0xff2_data_in_ctr ;
   assign fix_0xff2_i_busy = \$next\fix_0xff2_i_busy ;
+  assign fix_0xff2_end_in = \$next\fix_0xff2_end_in ;
   assign fix_0xff2_valid_in = \$next\fix_0xff2_valid_in ;
   assign fix_0xff2_data_in = \$next\fix_0xff2_data_in ;
   assign fix_0xff_i_busy = \$next\fix_0xff_i_busy ;
+  assign fix_0xff_end_in = \$next\fix_0xff_end_in ;
   assign fix_0xff_valid_in = \$next\fix_0xff_valid_in ;
   assign fix_0xff_data_in = \$next\fix_0xff_data_in ;
   assign integration_3_busy_in = \$next\integration_3_busy_in ;
-- 
2.43.0


From 092968c07aedec39f3f646df9609675c82ece7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:03 +0000
Subject: [PATCH 09/20] fix: camera integrations do not offer the last marker
 word twice

In the cycle after the final word is accepted the auto reset is still
pending and markers keeps valid and end high, so a ready receiver saw one
extra word flagged as the end of a frame.
---
 migen_src/beta_integration.py                 | 2 +-
 migen_src/micro_integration.py                | 2 +-
 verilog_src/beta_integration.v                | 8 +++++++-
 verilog_src/beta_integration_axistream.v      | 8 +++++++-
 verilog_src/beta_integration_fifo_axistream.v | 8 +++++++-
 verilog_src/beta_integration_fifo_lvds.v      | 8 +++++++-
 verilog_src/beta_integration_fullaxi.v        | 8 +++++++-
 verilog_src/micro_integration.v               | 8 +++++++-
 verilog_src/micro_integration_axistream.v     | 8 +++++++-
 9 files changed, 51 insertions(+), 9 deletions(-)

diff --git a/migen_src/beta_integration.py b/migen_src/beta_integration.py
index 6d7019c..98ab083 100644
--- a/migen_src/beta_integration.py
+++ b/migen_src/beta_integration.py
@@ -127,7 +127,7 @@ class BetaIntegration(Elaboratable):
 		#out
 		m.d.comb += [
 			self.data_out.eq(markers.data_out),
-			self.valid_out.eq(markers.valid_out),
+			self.valid_out.eq((markers.valid_out==1)&(auto_reset.reset_out==0)),
 			self.end_out.eq(markers.end_out),
 			self.nready.eq(integration_3.nready),
 		]
diff --git a/migen_src/micro_integration.py b/migen_src/micro_integration.py
index f5b07dd..bbdea2a 100644
--- a/migen_src/micro_integration.py
+++ b/migen_src/micro_integration.py
@@ -126,7 +126,7 @@ class MicroIntegration(Elaboratable):
 		#out
 		m.d.comb += [
 			self.data_out.eq(markers.data_out),
-			self.valid_out.eq(markers.valid_out),
+			self.valid_out.eq((markers.valid_out==1)&(auto_reset.reset_out==0)),
 			self.end_out.eq(markers.end_out),
 			self.nready.eq(integration_3.nready),
 		]
diff --git a/verilog_src/beta_integration.v b/verilog_src/beta_integration.v
index 0163da7..7b0c142 100644
--- a/verilog_src/beta_integration.v
+++ b/verilog_src/beta_integration.v
@@ -7628,6 +7628,9 @@ module top(full_rst, busy_in, pixel_in1, pixel_in2, valid_in, valid_out, end_out
   wire \$4 ;
   wire \$6 ;
   wire \$8 ;
+  wire \$10 ;
+  wire \$12 ;
+  wire \$14 ;
   (* src = "auto_reset.py:34" *)
   reg \$next\auto_reset_end_in ;
   (* src = "auto_reset.py:37" *)
@@ -7790,6 +7793,9 @@ module top(full_rst, busy_in, pixel_in1, pixel_in2, valid_in, valid_out, end_out
   assign \$4  = full_rst == (* src = "beta_integration.py:69" *) 1'h1;
   assign \$6  = \$2  | (* src = "beta_integration.py:69" *) \$4 ;
   assign \$8  = busy_in == (* src = "beta_integration.py:76" *) 1'h0;
+  assign \$10  = markers_valid_out == (* src = "beta_integration.py:130" *) 1'h1;
+  assign \$12  = auto_reset_reset_out == (* src = "beta_integration.py:130" *) 1'h0;
+  assign \$14  = \$10  & (* src = "beta_integration.py:130" *) \$12 ;
   auto_reset auto_reset (
     .clk(integration_3_clk),
     .end_in(auto_reset_end_in),
@@ -7922,7 +7928,7 @@ module top(full_rst, busy_in, pixel_in1, pixel_in2, valid_in, valid_out, end_out
   end
   always @* begin
     \$next\valid_out  = 1'h0;
-    \$next\valid_out  = markers_valid_out;
+    \$next\valid_out  = \$14 ;
   end
   always @* begin
     \$next\end_out  = 1'h0;
diff --git a/verilog_src/beta_integration_axistream.v b/verilog_src/beta_integration_axistream.v
index 7eecbe8..4f77e00 100644
--- a/verilog_src/beta_integration_axistream.v
+++ b/verilog_src/beta_integration_axistream.v
@@ -7750,6 +7750,9 @@ module top_module(full_rst, busy_in, pixel_in1, pixel_in2, valid_in, data_out, v
   wire \$4 ;
   wire \$6 ;
   wire \$8 ;
+  wire \$10 ;
+  wire \$12 ;
+  wire \$14 ;
   (* src = "auto_reset.py:34" *)
   reg \$next\auto_reset_end_in ;
   (* src = "auto_reset.py:37" *)
@@ -7912,6 +7915,9 @@ module top_module(full_rst, busy_in, pixel_in1, pixel_in2, valid_in, data_out, v
   assign \$4  = full_rst == (* src = "beta_integration.py:69" *) 1'h1;
   assign \$6  = \$2  | (* src = "beta_integration.py:69" *) \$4 ;
   assign \$8  = busy_in == (* src = "beta_integration.py:76" *) 1'h0;
+  assign \$10  = markers_valid_out == (* src = "beta_integration.py:130" *) 1'h1;
+  assign \$12  = auto_reset_reset_out == (* src = "beta_integration.py:130" *) 1'h0;
+  assign \$14  = \$10  & (* src = "beta_integration.py:130" *) \$12 ;
   auto_reset auto_reset (
     .clk(integration_3_clk),
     .end_in(auto_reset_end_in),
@@ -8044,7 +8050,7 @@ module top_module(full_rst, busy_in, pixel_in1, pixel_in2, valid_in, data_out, v
   end
   always @* begin
     \$next\valid_out  = 1'h0;
-    \$next\valid_out  = markers_valid_out;
+    \$next\valid_out  = \$14 ;
   end
   always @* begin
     \$next\end_out  = 1'h0;
diff --git a/verilog_src/beta_integration_fifo_axistream.v b/verilog_src/beta_integration_fifo_axistream.v
index a773d12..7f2010c 100644
--- a/verilog_src/beta_integration_fifo_axistream.v
+++ b/verilog_src/beta_integration_fifo_axistream.v
@@ -8107,6 +8107,9 @@ module top_module(full_rst, busy_in, pixel_in1, pixel_in2, valid_in, data_out, v
   wire \$4 ;
   wire \$6 ;
   wire \$8 ;
+  wire \$10 ;
+  wire \$12 ;
+  wire \$14 ;
   (* src = "auto_reset.py:34" *)
   reg \$next\auto_reset_end_in ;
   (* src = "auto_reset.py:37" *)
@@ -8269,6 +8272,9 @@ module top_module(full_rst, busy_in, pixel_in1, pixel_in2, valid_in, data_out, v
   assign \$4  = full_rst == (* src = "beta_integration.py:69" *) 1'h1;
   assign \$6  = \$2  | (* src = "beta_integration.py:69" *) \$4 ;
   assign \$8  = busy_in == (* src = "beta_integration.py:76" *) 1'h0;
+  assign \$10  = markers_valid_out == (* src = "beta_integration.py:130" *) 1'h1;
+  assign \$12  = auto_reset_reset_out == (* src = "beta_integration.py:130" *) 1'h0;
+  assign \$14  = \$10  & (* src = "beta_integration.py:130" *) \$12 ;
   auto_reset auto_reset (
     .clk(integration_3_clk),
     .end_in(auto_reset_end_in),
@@ -8401,7 +8407,7 @@ module top_module(full_rst, busy_in, pixel_in1, pixel_in2, valid_in, data_out, v
   end
   always @* begin
     \$next\valid_out  = 1'h0;
-    \$next\valid_out  = markers_valid_out;
+    \$next\valid_out  = \$14 ;
   end
   always @* begin
     \$next\end_out  = 1'h0;
diff --git a/verilog_src/beta_integration_fifo_lvds.v b/verilog_src/beta_integration_fifo_lvds.v
index 041afa3..b173a20 100644
--- a/verilog_src/beta_integration_fifo_lvds.v
+++ b/verilog_src/beta_integration_fifo_lvds.v
@@ -8552,6 +8552,9 @@ module top_module(full_rst, busy_in, pixel_in1, pixel_in2, valid_in, clk, rst, d
   wire \$4 ;
   wire \$6 ;
   wire \$8 ;
+  wire \$10 ;
+  wire \$12 ;
+  wire \$14 ;
   (* src = "auto_reset.py:34" *)
   reg \$next\auto_reset_end_in ;
   (* src = "auto_reset.py:37" *)
@@ -8714,6 +8717,9 @@ module top_module(full_rst, busy_in, pixel_in1, pixel_in2, valid_in, clk, rst, d
   assign \$4  = full_rst == (* src = "beta_integration.py:69" *) 1'h1;
   assign \$6  = \$2  | (* src = "beta_integration.py:69" *) \$4 ;
   assign \$8  = busy_in == (* src = "beta_integration.py:76" *) 1'h0;
+  assign \$10  = markers_valid_out == (* src = "beta_integration.py:130" *) 1'h1;
+  assign \$12  = auto_reset_reset_out == (* src = "beta_integration.py:130" *) 1'h0;
+  assign \$14  = \$10  & (* src = "beta_integration.py:130" *) \$12 ;
   auto_reset auto_reset (
     .clk(clk),
     .end_in(auto_reset_end_in),
@@ -8846,7 +8852,7 @@ module top_module(full_rst, busy_in, pixel_in1, pixel_in2, valid_in, clk, rst, d
   end
   always @* begin
     \$next\valid_out  = 1'h0;
-    \$next\valid_out  = markers_valid_out;
+    \$next\valid_out  = \$14 ;
   end
   always @* begin
     \$next\end_out  = 1'h0;
diff --git a/verilog_src/beta_integration_fullaxi.v b/verilog_src/beta_integration_fullaxi.v
index bcc0a6f..2a88abb 100644
--- a/verilog_src/beta_integration_fullaxi.v
+++ b/verilog_src/beta_integration_fullaxi.v
@@ -12196,6 +12196,9 @@ module \top$1 (full_rst, busy_in, pixel_in1, pixel_in2, valid_in, clk, rst, data
   wire \$4 ;
   wire \$6 ;
   wire \$8 ;
+  wire \$10 ;
+  wire \$12 ;
+  wire \$14 ;
   (* src = "auto_reset.py:34" *)
   reg \$next\auto_reset_end_in ;
   (* src = "auto_reset.py:37" *)
@@ -12358,6 +12361,9 @@ module \top$1 (full_rst, busy_in, pixel_in1, pixel_in2, valid_in, clk, rst, data
   assign \$4  = full_rst == (* src = "beta_integration.py:69" *) 1'h1;
   assign \$6  = \$2  | (* src = "beta_integration.py:69" *) \$4 ;
   assign \$8  = busy_in == (* src = "beta_integration.py:76" *) 1'h0;
+  assign \$10  = markers_valid_out == (* src = "beta_integration.py:130" *) 1'h1;
+  assign \$12  = auto_reset_reset_out == (* src = "beta_integration.py:130" *) 1'h0;
+  assign \$14  = \$10  & (* src = "beta_integration.py:130" *) \$12 ;
   auto_reset auto_reset (
     .clk(clk),
     .end_in(auto_reset_end_in),
@@ -12490,7 +12496,7 @@ module \top$1 (full_rst, busy_in, pixel_in1, pixel_in2, valid_in, clk, rst, data
   end
   always @* begin
     \$next\valid_out  = 1'h0;
-    \$next\valid_out  = markers_valid_out;
+    \$next\valid_out  = \$14 ;
   end
   always @* begin
     \$next\end_out  = 1'h0;
diff --git a/verilog_src/micro_integration.v b/verilog_src/micro_integration.v
index 0e04621..b415916 100644
--- a/verilog_src/micro_integration.v
+++ b/verilog_src/micro_integration.v
@@ -7401,6 +7401,9 @@ module top(full_rst, busy_in, pixel_in, valid_in, s_axi_ri__arvalid, s_axi_wi__a
   wire \$4 ;
   wire \$6 ;
   wire \$8 ;
+  wire \$10 ;
+  wire \$12 ;
+  wire \$14 ;
   (* src = "auto_reset.py:34" *)
   reg \$next\auto_reset_end_in ;
   (* src = "auto_reset.py:37" *)
@@ -7575,6 +7578,9 @@ module top(full_rst, busy_in, pixel_in, valid_in, s_axi_ri__arvalid, s_axi_wi__a
   assign \$4  = full_rst == (* src = "micro_integration.py:68" *) 1'h1;
   assign \$6  = \$2  | (* src = "micro_integration.py:68" *) \$4 ;
   assign \$8  = busy_in == (* src = "micro_integration.py:75" *) 1'h0;
+  assign \$10  = markers_valid_out == (* src = "micro_integration.py:129" *) 1'h1;
+  assign \$12  = auto_reset_reset_out == (* src = "micro_integration.py:129" *) 1'h0;
+  assign \$14  = \$10  & (* src = "micro_integration.py:129" *) \$12 ;
   auto_reset auto_reset (
     .clk(integration_3_clk),
     .end_in(auto_reset_end_in),
@@ -7707,7 +7713,7 @@ module top(full_rst, busy_in, pixel_in, valid_in, s_axi_ri__arvalid, s_axi_wi__a
   end
   always @* begin
     \$next\valid_out  = 1'h0;
-    \$next\valid_out  = markers_valid_out;
+    \$next\valid_out  = \$14 ;
   end
   always @* begin
     \$next\end_out  = 1'h0;
diff --git a/verilog_src/micro_integration_axistream.v b/verilog_src/micro_integration_axistream.v
index fdb247a..0463e65 100644
--- a/verilog_src/micro_integration_axistream.v
+++ b/verilog_src/micro_integration_axistream.v
@@ -7636,6 +7636,9 @@ module top_module(full_rst, busy_in, pixel_in, valid_in, s_axi_ri__arvalid, s_ax
   wire \$4 ;
   wire \$6 ;
   wire \$8 ;
+  wire \$10 ;
+  wire \$12 ;
+  wire \$14 ;
   (* src = "auto_reset.py:34" *)
   reg \$next\auto_reset_end_in ;
   (* src = "auto_reset.py:37" *)
@@ -7826,6 +7829,9 @@ module top_module(full_rst, busy_in, pixel_in, valid_in, s_axi_ri__arvalid, s_ax
   assign \$4  = full_rst == (* src = "micro_integration.py:68" *) 1'h1;
   assign \$6  = \$2  | (* src = "micro_integration.py:68" *) \$4 ;
   assign \$8  = busy_in == (* src = "micro_integration.py:75" *) 1'h0;
+  assign \$10  = markers_valid_out == (* src = "micro_integration.py:129" *) 1'h1;
+  assign \$12  = auto_reset_reset_out == (* src = "micro_integration.py:129" *) 1'h0;
+  assign \$14  = \$10  & (* src = "micro_integration.py:129" *) \$12 ;
   auto_reset auto_reset (
     .clk(integration_3_clk),
     .end_in(auto_reset_end_in),
@@ -7966,7 +7972,7 @@ module top_module(full_rst, busy_in, pixel_in, valid_in, s_axi_ri__arvalid, s_ax
   end
   always @* begin
     \$next\valid_out  = 1'h0;
-    \$next\valid_out  = markers_valid_out;
+    \$next\valid_out  = \$14 ;
   end
   always @* begin
     \$next\end_out  = 1'h0;
-- 
2.43.0


From 942c619b2f22951b19a4db6ae97be201af48e6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:53 +0000
Subject: [PATCH 10/20] fix: b16_b40 keeps its fill state in the full clock
 domain

The packer's buffers live in the full domain but its FSM was in the core
domain, so the auto reset between frames restarted the FSM alone and
corrupted the packed stream.
---
 migen_src/b16_b40.py                     |  2 +-
 verilog_src/b16_b40.v                    |  8 +++-----
 verilog_src/beta_integration_fifo_lvds.v | 12 +++---------
 3 files changed, 7 insertions(+), 15 deletions(-)

diff --git a/migen_src/b16_b40.py b/migen_src/b16_b40.py
index 0d837a9..fb573fa 100644
--- a/migen_src/b16_b40.py
+++ b/migen_src/b16_b40.py
@@ -91,7 +91,7 @@ class B16B40(Elaboratable):
                 m.d.full += buffer2_valid.eq(0)
 
         # fsm
-        with m.FSM() as fsm:
+        with m.FSM(domain="full") as fsm:
 
             # buffer 1 handling
             with m.State("BUFF1_IDLE"):
diff --git a/verilog_src/b16_b40.v b/verilog_src/b16_b40.v
index 105e28b..6dedbad 100644
--- a/verilog_src/b16_b40.v
+++ b/verilog_src/b16_b40.v
@@ -3,7 +3,7 @@
 (* \nmigen.hierarchy  = "top" *)
 (* top =  1  *)
 (* generator = "nMigen" *)
-module top(i_busy, valid_in, data_in, full_rst, rst, valid_out, o_busy, data_out, full_clk);
+module top(i_busy, valid_in, data_in, full_rst, valid_out, o_busy, data_out, full_clk);
   wire \$1 ;
   wire \$11 ;
   wire \$13 ;
@@ -97,8 +97,6 @@ module top(i_busy, valid_in, data_in, full_rst, rst, valid_out, o_busy, data_out
   (* src = "b16_b40.py:44" *)
   output o_busy;
   reg o_busy = 1'h0;
-  (* src = "clk_domains.py:5" *)
-  input rst;
   (* init = 1'h0 *)
   (* src = "b16_b40.py:73" *)
   reg [7:0] temp_8 = 8'h00;
@@ -147,7 +145,7 @@ module top(i_busy, valid_in, data_in, full_rst, rst, valid_out, o_busy, data_out
       buffer2 <= \$next\buffer2 ;
   always @(posedge full_clk)
       buffer1 <= \$next\buffer1 ;
-  always @(posedge clk)
+  always @(posedge full_clk)
       fsm_state <= \$next\fsm_state ;
   always @(posedge full_clk)
       o_busy <= \$next\o_busy ;
@@ -380,7 +378,7 @@ module top(i_busy, valid_in, data_in, full_rst, rst, valid_out, o_busy, data_out
                 endcase
           endcase
     endcase
-    casez (rst)
+    casez (full_rst)
       1'h1:
           \$next\fsm_state  = 3'h0;
     endcase
diff --git a/verilog_src/beta_integration_fifo_lvds.v b/verilog_src/beta_integration_fifo_lvds.v
index b173a20..9b001ca 100644
--- a/verilog_src/beta_integration_fifo_lvds.v
+++ b/verilog_src/beta_integration_fifo_lvds.v
@@ -1135,7 +1135,7 @@ endmodule
 
 (* \nmigen.hierarchy  = "top.b16_b40" *)
 (* generator = "nMigen" *)
-module b16_b40(valid_in, data_in, full_rst, rst, full_clk, clk, data_out, valid_out, o_busy, i_busy);
+module b16_b40(valid_in, data_in, full_rst, full_clk, data_out, valid_out, o_busy, i_busy);
   wire \$1 ;
   wire \$11 ;
   wire \$13 ;
@@ -1206,8 +1206,6 @@ module b16_b40(valid_in, data_in, full_rst, rst, full_clk, clk, data_out, valid_
   (* init = 1'h0 *)
   (* src = "b16_b40.py:63" *)
   reg buffer2_valid = 1'h0;
-  (* src = "nmigen/hdl/mem.py:97" *)
-  input clk;
   (* src = "b16_b40.py:35" *)
   input [15:0] data_in;
   (* src = "b16_b40.py:38" *)
@@ -1227,8 +1225,6 @@ module b16_b40(valid_in, data_in, full_rst, rst, full_clk, clk, data_out, valid_
   (* src = "b16_b40.py:44" *)
   output o_busy;
   reg o_busy = 1'h0;
-  (* src = "clk_domains.py:5" *)
-  input rst;
   (* init = 1'h0 *)
   (* src = "b16_b40.py:73" *)
   reg [7:0] temp_8 = 8'h00;
@@ -1277,7 +1273,7 @@ module b16_b40(valid_in, data_in, full_rst, rst, full_clk, clk, data_out, valid_
       buffer2 <= \$next\buffer2 ;
   always @(posedge full_clk)
       buffer1 <= \$next\buffer1 ;
-  always @(posedge clk)
+  always @(posedge full_clk)
       fsm_state <= \$next\fsm_state ;
   always @(posedge full_clk)
       o_busy <= \$next\o_busy ;
@@ -1474,7 +1470,7 @@ module b16_b40(valid_in, data_in, full_rst, rst, full_clk, clk, data_out, valid_
                 endcase
           endcase
     endcase
-    casez (rst)
+    casez (full_rst)
       1'h1:
           \$next\fsm_state  = 3'h0;
     endcase
@@ -8444,14 +8440,12 @@ module top(s_tdata, s_tvalid, full_clk, full_rst, m_tvalid, m_tdata, s_tready, m
   assign \$1  = m_tready == (* src = "beta_integration_fifo_lvds.py:45" *) 1'h0;
   assign \$3  = b64_b32_o_busy == (* src = "beta_integration_fifo_lvds.py:59" *) 1'h0;
   b16_b40 b16_b40 (
-    .clk(top_module_clk),
     .data_in(b16_b40_data_in),
     .data_out(b16_b40_data_out),
     .full_clk(full_clk),
     .full_rst(full_rst),
     .i_busy(b16_b40_i_busy),
     .o_busy(b16_b40_o_busy),
-    .rst(top_module_rst),
     .valid_in(b16_b40_valid_in),
     .valid_out(b16_b40_valid_out)
   );
-- 
2.43.0


From ede551ba43533fbddb256b04e74df6ebab5e3b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:43 +0000
Subject: [PATCH 11/20] fix: core_axi_lite keeps its transaction state in the
 full clock domain

---
 migen_src/core_axi_lite.py                |  2 +-
 verilog_src/core_axi_lite.v               |  8 +++-----
 verilog_src/integration_1.v               |  9 +++------
 verilog_src/micro_integration.v           | 12 +++---------
 verilog_src/micro_integration_axistream.v | 12 +++---------
 5 files changed, 13 insertions(+), 30 deletions(-)

diff --git a/migen_src/core_axi_lite.py b/migen_src/core_axi_lite.py
index 8be8092..d030ca3 100644
--- a/migen_src/core_axi_lite.py
+++ b/migen_src/core_axi_lite.py
@@ -288,7 +288,7 @@ class CoreAxiLite(Elaboratable):
 		def clean_write_debug():
 			pass
 
-		with m.FSM() as main:
+		with m.FSM(domain="full") as main:
 
 			with m.State("IDLE"):
 				#needed from other states
diff --git a/verilog_src/core_axi_lite.v b/verilog_src/core_axi_lite.v
index 91d32a1..8bc2fbc 100644
--- a/verilog_src/core_axi_lite.v
+++ b/verilog_src/core_axi_lite.v
@@ -198,7 +198,7 @@ endmodule
 (* \nmigen.hierarchy  = "top" *)
 (* top =  1  *)
 (* generator = "nMigen" *)
-module top(full_clk, rp_data, s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_axi_ri__rready, s_axi_wi__awaddr, s_axi_wi__wvalid, s_axi_wi__wdata, s_axi_wi__wstrb, s_axi_wi__bready, full_rst, rst, height, width, allowed_cycles, wp_addr, wp_data, wp_en, rp_addr, s_axi_ro__arready, s_axi_ro__rdata, s_axi_ro__rresp, s_axi_ro__rvalid, s_axi_wo__awready, s_axi_wo__wready, s_axi_wo__bresp, s_axi_wo__bvalid, debug_en);
+module top(full_clk, rp_data, s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_axi_ri__rready, s_axi_wi__awaddr, s_axi_wi__wvalid, s_axi_wi__wdata, s_axi_wi__wstrb, s_axi_wi__bready, full_rst, height, width, allowed_cycles, wp_addr, wp_data, wp_en, rp_addr, s_axi_ro__arready, s_axi_ro__rdata, s_axi_ro__rresp, s_axi_ro__rvalid, s_axi_wo__awready, s_axi_wo__wready, s_axi_wo__bresp, s_axi_wo__bvalid, debug_en);
   wire \$100 ;
   wire \$102 ;
   wire \$104 ;
@@ -450,8 +450,6 @@ module top(full_clk, rp_data, s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__ar
   (* init = 2'h0 *)
   (* src = "core_axi_lite.py:172" *)
   reg [1:0] rresp_v = 2'h0;
-  (* src = "clk_domains.py:5" *)
-  input rst;
   (* init = 1'h0 *)
   (* src = "core_axi_lite.py:165" *)
   reg rvalid_v = 1'h0;
@@ -587,7 +585,7 @@ module top(full_clk, rp_data, s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__ar
       rp_addr <= \$next\rp_addr ;
   always @(posedge full_clk)
       addr_v <= \$next\addr_v ;
-  always @(posedge clk)
+  always @(posedge full_clk)
       fsm_state <= \$next\fsm_state ;
   always @(posedge full_clk)
       bvalid_v <= \$next\bvalid_v ;
@@ -823,7 +821,7 @@ module top(full_clk, rp_data, s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__ar
                 \$next\fsm_state  = 4'h0;
           endcase
     endcase
-    casez (rst)
+    casez (full_rst)
       1'h1:
           \$next\fsm_state  = 4'h0;
     endcase
diff --git a/verilog_src/integration_1.v b/verilog_src/integration_1.v
index b3007ac..3620bb6 100644
--- a/verilog_src/integration_1.v
+++ b/verilog_src/integration_1.v
@@ -1091,7 +1091,7 @@ endmodule
 
 (* \nmigen.hierarchy  = "top.core_axi_lite" *)
 (* generator = "nMigen" *)
-module core_axi_lite(rp_data, s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_axi_ri__rready, s_axi_wi__awaddr, s_axi_wi__wvalid, s_axi_wi__wdata, s_axi_wi__wstrb, s_axi_wi__bready, full_rst, rst, clk, rp_addr, wp_addr, wp_data, wp_en, allowed_cycles, height, width, full_clk);
+module core_axi_lite(rp_data, s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_axi_ri__rready, s_axi_wi__awaddr, s_axi_wi__wvalid, s_axi_wi__wdata, s_axi_wi__wstrb, s_axi_wi__bready, full_rst, clk, rp_addr, wp_addr, wp_data, wp_en, allowed_cycles, height, width, full_clk);
   wire [63:0] \$1 ;
   wire \$100 ;
   wire \$102 ;
@@ -1280,8 +1280,6 @@ module core_axi_lite(rp_data, s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__ar
   (* init = 2'h0 *)
   (* src = "core_axi_lite.py:172" *)
   reg [1:0] rresp_v = 2'h0;
-  (* src = "clk_domains.py:5" *)
-  input rst;
   (* init = 1'h0 *)
   (* src = "core_axi_lite.py:165" *)
   reg rvalid_v = 1'h0;
@@ -1412,7 +1410,7 @@ module core_axi_lite(rp_data, s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__ar
       rp_addr <= \$next\rp_addr ;
   always @(posedge full_clk)
       addr_v <= \$next\addr_v ;
-  always @(posedge clk)
+  always @(posedge full_clk)
       fsm_state <= \$next\fsm_state ;
   always @(posedge full_clk)
       bvalid_v <= \$next\bvalid_v ;
@@ -1584,7 +1582,7 @@ module core_axi_lite(rp_data, s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__ar
                 \$next\fsm_state  = 4'h0;
           endcase
     endcase
-    casez (rst)
+    casez (full_rst)
       1'h1:
           \$next\fsm_state  = 4'h0;
     endcase
@@ -3729,7 +3727,6 @@ module top(pixel_in, \pixel_in$1 , rst, full_clk, s_axi_ri__arvalid, s_axi_wi__a
     .height(core_axi_lite_height),
     .rp_addr(core_axi_lite_rp_addr),
     .rp_data(core_axi_lite_rp_data),
-    .rst(rst),
     .s_axi_ri__araddr(s_axi_ri__araddr),
     .s_axi_ri__arvalid(s_axi_ri__arvalid),
     .s_axi_ri__rready(s_axi_ri__rready),
diff --git a/verilog_src/micro_integration.v b/verilog_src/micro_integration.v
index b415916..e1a029b 100644
--- a/verilog_src/micro_integration.v
+++ b/verilog_src/micro_integration.v
@@ -1112,7 +1112,7 @@ endmodule
 
 (* \nmigen.hierarchy  = "top.integration_3.integration_2.integration_1.core_axi_lite" *)
 (* generator = "nMigen" *)
-module core_axi_lite(s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_axi_ri__rready, s_axi_wi__awaddr, s_axi_wi__wvalid, s_axi_wi__wdata, s_axi_wi__wstrb, s_axi_wi__bready, full_rst, rst, full_clk, clk, rp_addr, wp_addr, wp_data, wp_en, allowed_cycles, height, width, rp_data);
+module core_axi_lite(s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_axi_ri__rready, s_axi_wi__awaddr, s_axi_wi__wvalid, s_axi_wi__wdata, s_axi_wi__wstrb, s_axi_wi__bready, full_rst, full_clk, rp_addr, wp_addr, wp_data, wp_en, allowed_cycles, height, width, rp_data);
   wire [63:0] \$1 ;
   wire \$100 ;
   wire \$102 ;
@@ -1261,8 +1261,6 @@ module core_axi_lite(s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_a
   (* init = 1'h0 *)
   (* src = "core_axi_lite.py:169" *)
   reg bvalid_v = 1'h0;
-  (* src = "nmigen/hdl/mem.py:97" *)
-  input clk;
   (* src = "core_axi_lite.py:188" *)
   wire debug_enable;
   (* src = "core_axi_lite.py:190" *)
@@ -1299,8 +1297,6 @@ module core_axi_lite(s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_a
   (* init = 2'h0 *)
   (* src = "core_axi_lite.py:172" *)
   reg [1:0] rresp_v = 2'h0;
-  (* src = "clk_domains.py:5" *)
-  input rst;
   (* init = 1'h0 *)
   (* src = "core_axi_lite.py:165" *)
   reg rvalid_v = 1'h0;
@@ -1443,7 +1439,7 @@ module core_axi_lite(s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_a
       rp_addr <= \$next\rp_addr ;
   always @(posedge full_clk)
       addr_v <= \$next\addr_v ;
-  always @(posedge clk)
+  always @(posedge full_clk)
       fsm_state <= \$next\fsm_state ;
   always @(posedge full_clk)
       bvalid_v <= \$next\bvalid_v ;
@@ -1541,7 +1537,7 @@ module core_axi_lite(s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_a
                 \$next\fsm_state  = 4'h0;
           endcase
     endcase
-    casez (rst)
+    casez (full_rst)
       1'h1:
           \$next\fsm_state  = 4'h0;
     endcase
@@ -5031,13 +5027,11 @@ module integration_1(pixel_in, rst, clk, s_axi_ri__arvalid, s_axi_wi__awvalid, s
   output valid_out;
   core_axi_lite core_axi_lite (
     .allowed_cycles(core_axi_lite_allowed_cycles),
-    .clk(clk),
     .full_clk(full_clk),
     .full_rst(full_rst),
     .height(core_axi_lite_height),
     .rp_addr(core_axi_lite_rp_addr),
     .rp_data(core_axi_lite_rp_data),
-    .rst(rst),
     .s_axi_ri__araddr(s_axi_ri__araddr),
     .s_axi_ri__arvalid(s_axi_ri__arvalid),
     .s_axi_ri__rready(s_axi_ri__rready),
diff --git a/verilog_src/micro_integration_axistream.v b/verilog_src/micro_integration_axistream.v
index 0463e65..cd9c2e3 100644
--- a/verilog_src/micro_integration_axistream.v
+++ b/verilog_src/micro_integration_axistream.v
@@ -1112,7 +1112,7 @@ endmodule
 
 (* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.core_axi_lite" *)
 (* generator = "nMigen" *)
-module core_axi_lite(s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_axi_ri__rready, s_axi_wi__awaddr, s_axi_wi__wvalid, s_axi_wi__wdata, s_axi_wi__wstrb, s_axi_wi__bready, full_rst, rst, full_clk, clk, rp_addr, wp_addr, wp_data, wp_en, allowed_cycles, height, width, s_axi_ro__arready, s_axi_ro__rvalid, s_axi_wo__awready, s_axi_wo__wready, s_axi_wo__bvalid, s_axi_ro__rdata, s_axi_ro__rresp, s_axi_wo__bresp, rp_data);
+module core_axi_lite(s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_axi_ri__rready, s_axi_wi__awaddr, s_axi_wi__wvalid, s_axi_wi__wdata, s_axi_wi__wstrb, s_axi_wi__bready, full_rst, full_clk, rp_addr, wp_addr, wp_data, wp_en, allowed_cycles, height, width, s_axi_ro__arready, s_axi_ro__rvalid, s_axi_wo__awready, s_axi_wo__wready, s_axi_wo__bvalid, s_axi_ro__rdata, s_axi_ro__rresp, s_axi_wo__bresp, rp_data);
   wire [63:0] \$1 ;
   wire \$100 ;
   wire \$102 ;
@@ -1261,8 +1261,6 @@ module core_axi_lite(s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_a
   (* init = 1'h0 *)
   (* src = "core_axi_lite.py:169" *)
   reg bvalid_v = 1'h0;
-  (* src = "nmigen/hdl/mem.py:97" *)
-  input clk;
   (* src = "core_axi_lite.py:188" *)
   wire debug_enable;
   (* src = "core_axi_lite.py:190" *)
@@ -1299,8 +1297,6 @@ module core_axi_lite(s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_a
   (* init = 2'h0 *)
   (* src = "core_axi_lite.py:172" *)
   reg [1:0] rresp_v = 2'h0;
-  (* src = "clk_domains.py:5" *)
-  input rst;
   (* init = 1'h0 *)
   (* src = "core_axi_lite.py:165" *)
   reg rvalid_v = 1'h0;
@@ -1443,7 +1439,7 @@ module core_axi_lite(s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_a
       rp_addr <= \$next\rp_addr ;
   always @(posedge full_clk)
       addr_v <= \$next\addr_v ;
-  always @(posedge clk)
+  always @(posedge full_clk)
       fsm_state <= \$next\fsm_state ;
   always @(posedge full_clk)
       bvalid_v <= \$next\bvalid_v ;
@@ -1541,7 +1537,7 @@ module core_axi_lite(s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_a
                 \$next\fsm_state  = 4'h0;
           endcase
     endcase
-    casez (rst)
+    casez (full_rst)
       1'h1:
           \$next\fsm_state  = 4'h0;
     endcase
@@ -5047,13 +5043,11 @@ module integration_1(pixel_in, rst, clk, s_axi_ri__arvalid, s_axi_wi__awvalid, s
   output valid_out;
   core_axi_lite core_axi_lite (
     .allowed_cycles(core_axi_lite_allowed_cycles),
-    .clk(clk),
     .full_clk(full_clk),
     .full_rst(full_rst),
     .height(core_axi_lite_height),
     .rp_addr(core_axi_lite_rp_addr),
     .rp_data(core_axi_lite_rp_data),
-    .rst(rst),
     .s_axi_ri__araddr(s_axi_ri__araddr),
     .s_axi_ri__arvalid(s_axi_ri__arvalid),
     .s_axi_ri__rready(s_axi_ri__rready),
-- 
2.43.0


From ff949d359efdb1772e0c6586427191bfb8e6c70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:02 +0000
Subject: [PATCH 12/20] fix: lj92 decoder predicts each component from its own
 neighbours

---
 liblj92/lj92.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 665c504..0fef931 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -511,7 +511,7 @@ static int parseScan(ljp* self) {
     int compcount = self->data[self->ix+2];
     int pred = self->data[self->ix+3+2*compcount];
     if (pred<0 || pred>7) return ret;
-    if (pred==6) return parsePred6(self); // Fast path
+    if (pred==6 && self->components==1) return parsePred6(self); // Fast path
     self->ix += BEH(self->data[self->ix]);
     self->cnt = 0;
     self->b = 0;
@@ -551,16 +551,16 @@ static int parseScan(ljp* self) {
                           Px = lastrow[prev_colx + c];
                           break;
                         case 4:
-                          Px = left + lastrow[colx + c] - lastrow[prev_colx + c];
+                          Px = thisrow[prev_colx + c] + lastrow[colx + c] - lastrow[prev_colx + c];
                           break;
                         case 5:
-                          Px = left + ((lastrow[colx + c] - lastrow[prev_colx + c]) >> 1);
+                          Px = thisrow[prev_colx + c] + ((lastrow[colx + c] - lastrow[prev_colx + c]) >> 1);
                           break;
                         case 6:
-                          Px = lastrow[colx + c] + ((left - lastrow[prev_colx + c]) >> 1);
+                          Px = lastrow[colx + c] + ((thisrow[prev_colx + c] - lastrow[prev_colx + c]) >> 1);
                           break;
                         case 7:
-                          Px = (left + lastrow[colx + c]) >> 1;
+                          Px = (thisrow[prev_colx + c] + lastrow[colx + c]) >> 1;
                           break;
                     }
                 }
@@ -665,7 +665,7 @@ int lj92_open(lj92* lj,
         else {
             self->rowcache = rowcache;
             self->outrow[0] = rowcache;
-            self->outrow[1] = &rowcache[self->x];
+            self->outrow[1] = &rowcache[self->x * self->components];
         }
     }
 
-- 
2.43.0


From f32b2024fab678a8940786061a31ffbe8f648b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:02 +0000
Subject: [PATCH 13/20] fix: lj92 decoder skips after every writeLength values
 with all predictors

---
 liblj92/lj92.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 0fef931..7c7a249 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -432,7 +432,10 @@ static int parsePred6(ljp* self) {
     thisrow[col++] = left;
     out[c++] = linear;
     if (self->ix >= self->datalen) return ret;
-    --write;
+    if (--write==0) {
+        out += self->skiplen;
+        write = self->writelen;
+    }
     int rowcount = self->x-1;
     while (rowcount--) {
         diff = nextdiff(self);
@@ -515,6 +518,7 @@ static int parseScan(ljp* self) {
     self->ix += BEH(self->data[self->ix]);
     self->cnt = 0;
     self->b = 0;
+    int write = self->writelen;
     u16* out = self->image;
     u16* thisrow = self->outrow[0];
     u16* lastrow = self->outrow[1];
@@ -577,15 +581,17 @@ static int parseScan(ljp* self) {
                     linear = left;
 
                 thisrow[colx + c] = left;
-                out[colx + c] = linear; // HACK
+                *out++ = linear;
+                if (--write==0) {
+                    out += self->skiplen;
+                    write = self->writelen;
+                }
             } // c
         } // col
 
         u16* temprow = lastrow;
         lastrow = thisrow;
         thisrow = temprow;
-
-        out += self->x * self->components + self->skiplen;
     } // row
 
     ret = LJ92_ERROR_NONE;
-- 
2.43.0


From 2bd7dbdbd2b105eec8e21eeaf7a071f1b5592c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:02 +0000
Subject: [PATCH 14/20] fix: category 16 carries no extra bits and stands for a
 difference of 32768

---
 liblj92/lj92.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 7c7a249..36aed34 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -49,7 +49,7 @@ typedef struct _ljp {
     int skiplen; // Skip this many values after each row
     u16* linearize; // Linearization table
     int linlen;
-    int sssshist[16];
+    int sssshist[17];
 
     // Huffman table - only one supported, and probably needed
 #ifdef SLOW_HUFF
@@ -337,8 +337,8 @@ static int extend(ljp* self,int v,int t) {
 inline static int nextdiff(ljp* self) {
 #ifdef SLOW_HUFF
     int t = decode(self);
-    int diff = receive(self,t);
-    diff = extend(self,diff,t);
+    int diff = t==16 ? 32768 : receive(self,t);
+    if (t!=0 && t!=16) diff = extend(self,diff,t);
 #else
     u32 b = self->b;
     int cnt = self->cnt;
@@ -366,7 +366,8 @@ inline static int nextdiff(ljp* self) {
     cnt -= usedbits;
     int keepbitsmask = (1 << cnt)-1;
     b &= keepbitsmask;
-    while (cnt < t) {
+    int extra = t==16 ? 0 : t; // Category 16 has no extra bits
+    while (cnt < extra) {
         next = *(u16*)&self->data[ix];
         int one = next&0xFF;
         int two = next>>8;
@@ -378,13 +379,14 @@ inline static int nextdiff(ljp* self) {
             cnt -= 8;
         } else if (two==0xFF) ix++;
     }
-    cnt -= t;
+    cnt -= extra;
     int diff = b >> cnt;
-    int vt = 1<<(t-1);
-    if (diff < vt) {
-        vt = (-1 << t) + 1;
-        diff += vt;
-    }
+    if (t==0)
+        diff = 0;
+    else if (t==16)
+        diff = 32768;
+    else if (diff < 1<<(t-1))
+        diff -= (1<<t) - 1;
     keepbitsmask = (1 << cnt)-1;
     self->b = b & keepbitsmask;
     self->cnt = cnt;
@@ -773,7 +775,7 @@ int frequencyScan(lje* self) {
         else
             Px = rows[0][col] + ((rows[1][col-1] - rows[0][col-1])>>1);
         diff = rows[1][col] - Px;
-        diff = diff%65536;
+        diff = (int16_t)diff; // Differences are modulo 2^16
         int ssss = 32 - __builtin_clz(abs(diff));
         if (diff==0) ssss=0;
         self->hist[ssss]++;
@@ -1063,7 +1065,7 @@ int writeBody(lje* self) {
         else
             Px = rows[0][col] + ((rows[1][col-1] - rows[0][col-1])>>1);
         diff = rows[1][col] - Px;
-        diff = diff%65536;
+        diff = (int16_t)diff; // Differences are modulo 2^16
         int ssss = 32 - __builtin_clz(abs(diff));
         if (diff==0) ssss=0;
         //printf("%d %d %d %d %d\n",col,row,Px,diff,ssss);
@@ -1072,6 +1074,7 @@ int writeBody(lje* self) {
         int huffcode = self->huffsym[ssss];
         int huffenc = self->huffenc[huffcode];
         int huffbits = self->huffbits[huffcode];
+        if (ssss==16) ssss = 0; // No extra bits
         bitcount += huffbits + ssss;
 
         int vt = ssss>0?(1<<(ssss-1)):0;
-- 
2.43.0


From 97140068fdd8fc056e45a12a4e135ed369940d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:36 +0000
Subject: [PATCH 15/20] fix: lj92 decoder stops at the end of the data, and
 only when a sample needs more

---
 liblj92/lj92.c | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 36aed34..c4a2e9c 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -66,6 +66,7 @@ typedef struct _ljp {
     // Parse state
     int cnt;
     u32 b;
+    int corrupt; // Set when a sample cannot be decoded
     u16* image;
     u16* rowcache;
     u16* outrow[2];
@@ -334,6 +335,11 @@ static int extend(ljp* self,int v,int t) {
 }
 #endif
 
+// Zero past the end of the data, which may be looked at but not used
+inline static int scanbyte(ljp* self,int ix) {
+    return ix < self->datalen ? self->data[ix] : 0;
+}
+
 inline static int nextdiff(ljp* self) {
 #ifdef SLOW_HUFF
     int t = decode(self);
@@ -344,11 +350,9 @@ inline static int nextdiff(ljp* self) {
     int cnt = self->cnt;
     int huffbits = self->huffbits;
     int ix = self->ix;
-    int next;
     while (cnt < huffbits) {
-        next = *(u16*)&self->data[ix];
-        int one = next&0xFF;
-        int two = next>>8;
+        int one = scanbyte(self,ix);
+        int two = scanbyte(self,ix+1);
         b = (b<<16)|(one<<8)|two;
         cnt += 16;
         ix += 2;
@@ -368,9 +372,8 @@ inline static int nextdiff(ljp* self) {
     b &= keepbitsmask;
     int extra = t==16 ? 0 : t; // Category 16 has no extra bits
     while (cnt < extra) {
-        next = *(u16*)&self->data[ix];
-        int one = next&0xFF;
-        int two = next>>8;
+        int one = scanbyte(self,ix);
+        int two = scanbyte(self,ix+1);
         b = (b<<16)|(one<<8)|two;
         cnt += 16;
         ix += 2;
@@ -391,6 +394,7 @@ inline static int nextdiff(ljp* self) {
     self->b = b & keepbitsmask;
     self->cnt = cnt;
     self->ix = ix;
+    if ((ix - self->datalen)*8 > cnt) self->corrupt = 1;
     //printf("%d %d\n",t,diff);
 #ifdef DEBUG
 #endif
@@ -433,7 +437,7 @@ static int parsePred6(ljp* self) {
         linear = left;
     thisrow[col++] = left;
     out[c++] = linear;
-    if (self->ix >= self->datalen) return ret;
+    if (self->corrupt) return ret;
     if (--write==0) {
         out += self->skiplen;
         write = self->writelen;
@@ -451,7 +455,7 @@ static int parsePred6(ljp* self) {
         thisrow[col++] = left;
         out[c++] = linear;
         //printf("%d %d %d %d %x\n",col-1,diff,left,thisrow[col-1],&thisrow[col-1]);
-        if (self->ix >= self->datalen) return ret;
+        if (self->corrupt) return ret;
         if (--write==0) {
             out += self->skiplen;
             write = self->writelen;
@@ -476,7 +480,7 @@ static int parsePred6(ljp* self) {
         thisrow[col++] = left;
         //printf("%d %d %d %d\n",col,diff,left,lastrow[col]);
         out[c++] = linear;
-        if (self->ix >= self->datalen) break;
+        if (self->corrupt) return ret;
         rowcount = self->x-1;
         if (--write==0) {
             out += self->skiplen;
@@ -495,6 +499,7 @@ static int parsePred6(ljp* self) {
                 linear = left;
             thisrow[col++] = left;
             out[c++] = linear;
+            if (self->corrupt) return ret;
             if (--write==0) {
                 out += self->skiplen;
                 write = self->writelen;
@@ -503,7 +508,6 @@ static int parsePred6(ljp* self) {
         temprow = lastrow;
         lastrow = thisrow;
         thisrow = temprow;
-        if (self->ix >= self->datalen) break;
     }
     if (c >= pixels) ret = LJ92_ERROR_NONE;
     return ret;
@@ -512,6 +516,7 @@ static int parsePred6(ljp* self) {
 static int parseScan(ljp* self) {
     int ret = LJ92_ERROR_CORRUPT;
     memset(self->sssshist,0,sizeof(self->sssshist));
+    self->corrupt = 0;
     self->ix = self->scanstart;
     int compcount = self->data[self->ix+2];
     int pred = self->data[self->ix+3+2*compcount];
@@ -572,6 +577,7 @@ static int parseScan(ljp* self) {
                 }
                 
                 diff = nextdiff(self);
+                if (self->corrupt) return ret;
                 left = Px + diff;
                 left = (u16) (left%65536);
                 //printf("%d %d %d\n",c,diff,left);
-- 
2.43.0


From 41f08a5e1933961b80a27908d5b4a8c0f2cede1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:36 +0000
Subject: [PATCH 16/20] fix: lj92 decoder checks marker segments before it
 reads them

---
 liblj92/lj92.c | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index c4a2e9c..98d4578 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -75,7 +75,7 @@ typedef struct _ljp {
 static int find(ljp* self) {
     int ix = self->ix;
     u8* data = self->data;
-    while (data[ix] != 0xFF && ix<(self->datalen-1)) {
+    while (ix<(self->datalen-1) && data[ix] != 0xFF) {
         ix += 1;
     }
     ix += 2;
@@ -88,11 +88,11 @@ static int find(ljp* self) {
 
 static int parseHuff(ljp* self) {
     int ret = LJ92_ERROR_CORRUPT;
+    if (self->datalen - self->ix < 19) return ret;
     u8* huffhead = &self->data[self->ix]; // xstruct.unpack('>HB16B',self.data[self.ix:self.ix+19])
     u8* bits = &huffhead[2];
-    bits[0] = 0; // Because table starts from 1
     int hufflen = BEH(huffhead[0]);
-    if ((self->ix + hufflen) >= self->datalen) return ret;
+    if (hufflen < 19 || (self->ix + hufflen) >= self->datalen) return ret;
 #ifdef SLOW_HUFF
     u8* huffval = calloc(hufflen - 19,sizeof(u8));
     if (huffval == NULL) return LJ92_ERROR_NO_MEMORY;
@@ -261,22 +261,27 @@ static int parseHuff(ljp* self) {
         i++;
         rv++;
     }
+    self->ix += hufflen;
     ret = LJ92_ERROR_NONE;
 #endif
     return ret;
 }
 
 static int parseSof3(ljp* self) {
-    if (self->ix+6 >= self->datalen) return LJ92_ERROR_CORRUPT;
+    if (self->datalen - self->ix < 8) return LJ92_ERROR_CORRUPT;
     self->y = BEH(self->data[self->ix+3]);
     self->x = BEH(self->data[self->ix+5]);
     self->bits = self->data[self->ix+2];
     self->components = self->data[self->ix + 7];
+    if (self->x==0 || self->y==0 || self->components==0) return LJ92_ERROR_CORRUPT;
+    if (self->bits<2 || self->bits>16) return LJ92_ERROR_CORRUPT;
     self->ix += BEH(self->data[self->ix]);
+    if (self->ix >= self->datalen) return LJ92_ERROR_CORRUPT;
     return LJ92_ERROR_NONE;
 }
 
 static int parseBlock(ljp* self) {
+    if (self->datalen - self->ix < 2) return LJ92_ERROR_CORRUPT;
     self->ix += BEH(self->data[self->ix]);
     if (self->ix >= self->datalen) return LJ92_ERROR_CORRUPT;
     return LJ92_ERROR_NONE;
@@ -518,7 +523,9 @@ static int parseScan(ljp* self) {
     memset(self->sssshist,0,sizeof(self->sssshist));
     self->corrupt = 0;
     self->ix = self->scanstart;
+    if (self->datalen - self->ix < 3) return ret;
     int compcount = self->data[self->ix+2];
+    if (self->datalen - self->ix < 4+2*compcount) return ret;
     int pred = self->data[self->ix+3+2*compcount];
     if (pred<0 || pred>7) return ret;
     if (pred==6 && self->components==1) return parsePred6(self); // Fast path
@@ -608,19 +615,22 @@ static int parseScan(ljp* self) {
 
 static int parseImage(ljp* self) {
     int ret = LJ92_ERROR_NONE;
+    int tables = 0;
     while (1) {
         int nextMarker = find(self);
-        if (nextMarker == 0xc4)
+        if (nextMarker == 0xc4) {
             ret = parseHuff(self);
-        else if (nextMarker == 0xc3)
+            tables = 1;
+        } else if (nextMarker == 0xc3)
             ret = parseSof3(self);
         else if (nextMarker == 0xfe)// Comment
             ret = parseBlock(self);
-        else if (nextMarker == 0xd9) // End of image
+        else if (nextMarker == 0xd9) { // End of image, without a scan
+            ret = LJ92_ERROR_CORRUPT;
             break;
-        else if (nextMarker == 0xda) {
+        } else if (nextMarker == 0xda) {
             self->scanstart = self->ix;
-            ret = LJ92_ERROR_NONE;
+            ret = self->x && tables ? LJ92_ERROR_NONE : LJ92_ERROR_CORRUPT;
             break;
         } else if (nextMarker == -1) {
             ret = LJ92_ERROR_CORRUPT;
-- 
2.43.0


From 4d762ed993627c987806c06af766822e5b443e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:36 +0000
Subject: [PATCH 17/20] fix: lj92 decoder rejects Huffman tables and codes that
 are not valid

---
 liblj92/lj92.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 98d4578..02b3941 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -223,10 +223,22 @@ static int parseHuff(ljp* self) {
         if (bits[maxbits]) break;
         maxbits--;
     }
+    // The table must hold a value for each code, and no more codes than there are
+    int codes = 0;
+    int space = 1;
+    for (int l=1;l<=maxbits;l++) {
+        codes += bits[l];
+        space = space*2 - bits[l];
+        if (space<0) return ret;
+    }
+    if (codes==0 || hufflen<19+codes) return ret;
+    for (int v=0;v<codes;v++)
+        if (huffvals[v]>16) return ret;
     self->huffbits = maxbits;
-    /* Now fill the lut */
-    u16* hufflut = malloc((1<<maxbits) * sizeof(u16));
+    /* Now fill the lut; entries without a code stay 0 */
+    u16* hufflut = calloc(1<<maxbits,sizeof(u16));
     if (hufflut == NULL) return LJ92_ERROR_NO_MEMORY;
+    free(self->hufflut);
     self->hufflut = hufflut;
     int i = 0;
     int hv = 0;
@@ -370,6 +382,7 @@ inline static int nextdiff(ljp* self) {
     int index = b >> (cnt - huffbits);
     u16 ssssused = self->hufflut[index];
     int usedbits = ssssused&0xFF;
+    if (usedbits==0) self->corrupt = 1;
     int t = ssssused>>8;
     self->sssshist[t]++;
     cnt -= usedbits;
-- 
2.43.0


From 50602a208035ea50a33107f1cc4999460078c867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:37 +0000
Subject: [PATCH 18/20] fix: lj92 decoder looks up only the linearizeLength
 entries of the table

---
 liblj92/lj92.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 02b3941..a12ba39 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -449,9 +449,10 @@ static int parsePred6(ljp* self) {
     Px = 1 << (self->bits-1);
     left = Px + diff;
     left = (u16) (left%65536);
-    if (self->linearize)
+    if (self->linearize) {
+        if (left>=self->linlen) return LJ92_ERROR_CORRUPT;
         linear = self->linearize[left];
-    else
+    } else
         linear = left;
     thisrow[col++] = left;
     out[c++] = linear;
@@ -466,9 +467,10 @@ static int parsePred6(ljp* self) {
         Px = left;
         left = Px + diff;
         left = (u16) (left%65536);
-        if (self->linearize)
+        if (self->linearize) {
+            if (left>=self->linlen) return LJ92_ERROR_CORRUPT;
             linear = self->linearize[left];
-        else
+        } else
             linear = left;
         thisrow[col++] = left;
         out[c++] = linear;
@@ -491,7 +493,7 @@ static int parsePred6(ljp* self) {
         left = Px + diff;
         left = (u16) (left%65536);
         if (self->linearize) {
-            if (left>self->linlen) return LJ92_ERROR_CORRUPT;
+            if (left>=self->linlen) return LJ92_ERROR_CORRUPT;
             linear = self->linearize[left];
         } else
             linear = left;
@@ -511,7 +513,7 @@ static int parsePred6(ljp* self) {
             left = (u16) (left%65536);
             //printf("%d %d %d %d %d %x\n",col,diff,left,lastrow[col],lastrow[col-1],&lastrow[col]);
             if (self->linearize) {
-                if (left>self->linlen) return LJ92_ERROR_CORRUPT;
+                if (left>=self->linlen) return LJ92_ERROR_CORRUPT;
                 linear = self->linearize[left];
             } else
                 linear = left;
@@ -603,7 +605,7 @@ static int parseScan(ljp* self) {
                 //printf("%d %d %d\n",c,diff,left);
                 int linear;
                 if (self->linearize) {
-                    if (left>self->linlen) return LJ92_ERROR_CORRUPT;
+                    if (left>=self->linlen) return LJ92_ERROR_CORRUPT;
                     linear = self->linearize[left];
                 } else
                     linear = left;
-- 
2.43.0


From d12ab590cfb84b8f5eb98db6b7f3d72c458e9682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:37 +0000
Subject: [PATCH 19/20] fix: lj92 encoder counts the categories of the
 delinearized samples

---
 liblj92/lj92.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index a12ba39..c46e855 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -784,14 +784,14 @@ int frequencyScan(lje* self) {
     int maxval = (1 << self->bitdepth);
     while (pixcount--) {
         uint16_t p = *pixel;
-        /* if (self->delinearize) {
+        if (self->delinearize) {
             if (p>=self->delinearizeLength) {
                 free(rowcache);
                 return LJ92_ERROR_TOO_WIDE;
             }
             p = self->delinearize[p];
         }
-        if (p>=maxval) {
+        /* if (p>=maxval) {
             free(rowcache);
             return LJ92_ERROR_TOO_WIDE;
         } */
-- 
2.43.0


From ff65418fb327916cdb76a7c0f6931de43b406aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:37 +0000
Subject: [PATCH 20/20] fix: lj92 encoder keeps room for the last byte and the
 end marker

---
 liblj92/lj92.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index c46e855..d973f1a 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -1125,7 +1125,7 @@ int writeBody(lje* self) {
             huffbits -= usebits;
             huffenc &= (1<<huffbits)-1;
             if (nextbits==0) {
-                if(w >= self->encodedLength - 1)
+                if(w > self->encodedLength - 6) // Room for two stuffed bytes and the end marker
                 {
                     free(rowcache);
                     return LJ92_ERROR_ENCODER;
@@ -1147,7 +1147,7 @@ int writeBody(lje* self) {
             ssss -= usebits;
             diff &= (1<<ssss)-1;
             if (nextbits==0) {
-                if(w >= self->encodedLength - 1)
+                if(w > self->encodedLength - 6) // Room for two stuffed bytes and the end marker
                 {
                     free(rowcache);
                     return LJ92_ERROR_ENCODER;
-- 
2.43.0

