From 04a0037e2be3b94609f256893f4d0f6824fd922e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:48 +0000
Subject: [PATCH 01/24] fix: pass Memory and FIFO sizes by keyword, so the
 encoder elaborates on released nMigen

---
 migen_src/axihp_fifo.py         | 2 +-
 migen_src/b64_b32.py            | 4 ++--
 migen_src/converter_fifo.py     | 2 +-
 migen_src/encode.py             | 2 +-
 migen_src/lj92_pipeline_fifo.py | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/migen_src/axihp_fifo.py b/migen_src/axihp_fifo.py
index 0428edc..f8e8e60 100644
--- a/migen_src/axihp_fifo.py
+++ b/migen_src/axihp_fifo.py
@@ -32,7 +32,7 @@ class AxiHPFifo(Elaboratable):
 			[self.writable16, self.readable16] + \
 			[self.read]
 
-		self.fifo = SyncFIFO(65, 32)
+		self.fifo = SyncFIFO(width=65, depth=32)
 
 	def elaborate(self, platform):
 
diff --git a/migen_src/b64_b32.py b/migen_src/b64_b32.py
index a91dd0d..bd5a1f4 100644
--- a/migen_src/b64_b32.py
+++ b/migen_src/b64_b32.py
@@ -53,8 +53,8 @@ class B64B32(Elaboratable):
         m = Module()
 
         # fifo module
-        fifo64 = SyncFIFO(64, 2)
-        fifo32 = SyncFIFO(32, 4)
+        fifo64 = SyncFIFO(width=64, depth=2)
+        fifo32 = SyncFIFO(width=32, depth=4)
         m.submodules.fifo32 = fifo32
         m.submodules.fifo64 = fifo64
 
diff --git a/migen_src/converter_fifo.py b/migen_src/converter_fifo.py
index 9109081..bcad38e 100644
--- a/migen_src/converter_fifo.py
+++ b/migen_src/converter_fifo.py
@@ -72,7 +72,7 @@ class ConverterFifo(Elaboratable):
 			[self.enc_out, self.enc_out_ctr, self.out_end, self.valid_out] + \
 			[self.latch_output, self.writable, self.close_full]
 
-		self.fifo = SyncFIFOBuffered(self.total_bits, self.depth)
+		self.fifo = SyncFIFOBuffered(width=self.total_bits, depth=self.depth)
 
 	def elaborate(self, platform):
 
diff --git a/migen_src/encode.py b/migen_src/encode.py
index 0d7b6df..d5abb8f 100644
--- a/migen_src/encode.py
+++ b/migen_src/encode.py
@@ -192,7 +192,7 @@ class Encode(Elaboratable):
 		self.end_out = Signal(1)
 
 		# read ports to be accessed by encoders
-		self.mem = Memory(self.bd+21, self.bd+1, init_huff_table(self.bd))
+		self.mem = Memory(width=self.bd+21, depth=self.bd+1, init=init_huff_table(self.bd))
 		self.read_ports = [self.mem.read_port() for _ in range(self.ps)]
 		
 		if self.axi_lite:
diff --git a/migen_src/lj92_pipeline_fifo.py b/migen_src/lj92_pipeline_fifo.py
index cfac0c7..9642a39 100644
--- a/migen_src/lj92_pipeline_fifo.py
+++ b/migen_src/lj92_pipeline_fifo.py
@@ -72,7 +72,7 @@ class LJ92PipelineFifo(Elaboratable):
 			[self.latch_output, self.close_full]
 
 		# 4x dual port bram with 36kb each.
-		self.fifo = SyncFIFOBuffered(self.total_width, self.depth)
+		self.fifo = SyncFIFOBuffered(width=self.total_width, depth=self.depth)
 
 	def elaborate(self, platform):
 
-- 
2.43.0


From 76e889777d38d1e0451777e6723310e991427c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 02/24] fix: wrap 16 bit differences modulo 2^16 so every
 difference has an ssss class

---
 migen_src/difference.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/migen_src/difference.py b/migen_src/difference.py
index b219c55..bf80eb9 100644
--- a/migen_src/difference.py
+++ b/migen_src/difference.py
@@ -86,8 +86,16 @@ class Difference(Elaboratable):
 
 		#if valid data
 		with m.If(self.valid_in):
-			m.d.sync += [val_out.eq(pixel_in-predic_in) for val_out, pixel_in, predic_in in zip(self.vals_out, self.pixels_in, self.predics_in)]
-			m.d.sync += [val_out_mns.eq(pixel_in-predic_in-1) for val_out_mns, pixel_in, predic_in in zip(self.vals_out_mns, self.pixels_in, self.predics_in)]
+			for val_out, val_out_mns, pixel_in, predic_in in zip(self.vals_out, self.vals_out_mns, self.pixels_in, self.predics_in):
+				diff = pixel_in-predic_in
+				# LJ92 differences are modulo 2^16, for the 16 bits depth the
+				# difference must wrap to fit in the 17 ssss classes.
+				if self.bd == 16:
+					diff = Cat(diff[0:16], diff[15])
+				m.d.sync += [
+					val_out.eq(diff),
+					val_out_mns.eq(diff-1),
+				]
 
 		#if valid data
 		m.d.sync += self.valid_out.eq(self.valid_in)
-- 
2.43.0


From c21d30ccb22009920ae8f0422a682152be0516f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:07 +0000
Subject: [PATCH 03/24] fix: markers ends the frame only when its end word was
 really accepted

---
 migen_src/markers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/migen_src/markers.py b/migen_src/markers.py
index 132efb5..f093834 100644
--- a/migen_src/markers.py
+++ b/migen_src/markers.py
@@ -73,7 +73,7 @@ class Markers(Elaboratable):
         # late_data_i = Signal(16)
 
         end_cond = Signal(1)
-        m.d.sync += end_cond.eq((self.i_busy==0)&(self.valid_in==1)&(self.end_in==1))
+        m.d.sync += end_cond.eq((self.o_busy==0)&(self.valid_in==1)&(self.end_in==1))
 
         # late2_busy_i = Signal(1)
         # late2_valid_i = Signal(1)
-- 
2.43.0


From dc560fcbd9f74ca95a20e0931f9a1acbdba8acf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:07 +0000
Subject: [PATCH 04/24] fix: markers no longer repeats the last marker word
 while the core waits for its reset

---
 migen_src/markers.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/migen_src/markers.py b/migen_src/markers.py
index f093834..883d94a 100644
--- a/migen_src/markers.py
+++ b/migen_src/markers.py
@@ -164,19 +164,12 @@ class Markers(Elaboratable):
                         self.o_busy.eq(self.i_busy),
                     ]
 
+            # the last word is out, stay silent until the core is reset
             with m.State("DONE_NORMAL"):
-                m.d.comb += [
-                    self.data_out.eq(0xFFFF),
-                    self.valid_out.eq(1),
-                    self.end_out.eq(1),
-                ]
+                pass
 
             with m.State("DONE_FORCE"):
-                m.d.comb += [
-                    self.data_out.eq(0xFFFE),
-                    self.valid_out.eq(1),
-                    self.end_out.eq(1),
-                ]                
+                pass
 
         return m
 
-- 
2.43.0


From c1ceb2f23029ef89124a22618b177870880b61a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:45 +0000
Subject: [PATCH 05/24] fix: markers holds its words and its last flag stable
 while the sink is busy

---
 migen_src/markers.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/migen_src/markers.py b/migen_src/markers.py
index 883d94a..325cb81 100644
--- a/migen_src/markers.py
+++ b/migen_src/markers.py
@@ -105,17 +105,18 @@ class Markers(Elaboratable):
                     self.data_out.eq(0xFFFF),
                     self.valid_out.eq(1),
                 ]
+                # handle transition to frame handling
+                with m.If(counter==0):
+                    m.d.sync += counter.eq(8)
+                    m.d.comb += [
+                        self.data_out.eq(0),
+                        self.valid_out.eq(0),
+                    ]
+                    m.next = "FRAME_HANDLING"
+
                 # handle counter
-                with m.If(self.i_busy==0):
+                with m.Elif(self.i_busy==0):
                     m.d.sync += counter.eq(counter - 1)
-                    # handle transition to frame handling
-                    with m.If(counter==0):
-                        m.d.sync += counter.eq(8)
-                        m.d.comb += [
-                            self.data_out.eq(0),
-                            self.valid_out.eq(0),
-                        ]
-                        m.next = "FRAME_HANDLING"
 
             with m.State("ENDING_MARKER"):
                 # handle output data
@@ -123,12 +124,13 @@ class Markers(Elaboratable):
                     self.data_out.eq(0xFFFF),
                     self.valid_out.eq(1),
                 ]
+                # handle end signals
+                with m.If(counter==1):
+                    m.d.comb += self.end_out.eq(1)
                 # handle counter
                 with m.If(self.i_busy==0):
                     m.d.sync += counter.eq(counter - 1)
-                    # handle end signals
                     with m.If(counter==1):
-                        m.d.comb += self.end_out.eq(1)
                         m.next = "DONE_NORMAL"
 
             with m.State("FORCE_ENDING_MARKER"):
@@ -137,12 +139,13 @@ class Markers(Elaboratable):
                     self.data_out.eq(0xFFFE),
                     self.valid_out.eq(1),
                 ]
+                # handle end signals
+                with m.If(counter==1):
+                    m.d.comb += self.end_out.eq(1)
                 # handle counter
                 with m.If(self.i_busy==0):
                     m.d.sync += counter.eq(counter - 1)
-                    # handle end signals
                     with m.If(counter==1):
-                        m.d.comb += self.end_out.eq(1)
                         m.next = "DONE_FORCE"
 
             with m.State("FRAME_HANDLING"):
-- 
2.43.0


From adbedaeb262b74f92d738b5d4bf095b354b90322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:54 +0000
Subject: [PATCH 06/24] fix: wire the end-of-frame flags and the markers
 back-pressure in the micro integration

---
 migen_src/micro_integration.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/migen_src/micro_integration.py b/migen_src/micro_integration.py
index 315cffb..f5b07dd 100644
--- a/migen_src/micro_integration.py
+++ b/migen_src/micro_integration.py
@@ -101,6 +101,7 @@ class MicroIntegration(Elaboratable):
 		m.d.comb += [
 			fix_0xff.data_in.eq(integration_3.data_out),
 			fix_0xff.valid_in.eq(integration_3.valid_out),
+			fix_0xff.end_in.eq(integration_3.end_out),
 			fix_0xff.i_busy.eq(fix_0xff2.o_busy),
 		]
 
@@ -108,7 +109,8 @@ class MicroIntegration(Elaboratable):
 		m.d.comb += [
 			fix_0xff2.data_in.eq(fix_0xff.data_out),
 			fix_0xff2.valid_in.eq(fix_0xff.valid_out),
-			fix_0xff2.i_busy.eq(self.busy_in),
+			fix_0xff2.end_in.eq(fix_0xff.end_out),
+			fix_0xff2.i_busy.eq(markers.o_busy),
 			fix_0xff2.data_in_ctr.eq(fix_0xff.data_out_ctr),
 		]
 
-- 
2.43.0


From a3781d397b49743db7804b9fc175ce5866dcf0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:32 +0000
Subject: [PATCH 07/24] fix: signals handles rows of one group and frames of
 two groups

---
 migen_src/signals.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/migen_src/signals.py b/migen_src/signals.py
index e3af351..20172cd 100644
--- a/migen_src/signals.py
+++ b/migen_src/signals.py
@@ -66,7 +66,20 @@ class Signals(Elaboratable):
 						height_temp.eq(self.height-1),
 						self.new_row.eq(0),
 					]
-					m.next = "LOOP"
+					# one cycle per row, every input starts a row
+					with m.If(self.width == self.ps):
+						m.d.sync += [
+							width_temp.eq(self.width),
+							height_temp.eq(self.height-2),
+							self.new_row.eq(1),
+						]
+					# two cycles per frame, the next input is the last
+					with m.If(((self.height == 1) & (self.width == 2*self.ps)) | \
+						((self.height == 2) & (self.width == self.ps))):
+						m.d.sync += self.end_of_frame.eq(1)
+						m.next = "END"
+					with m.Else():
+						m.next = "LOOP"
 
 			with m.State("LOOP"):
 				with m.If(self.new_input):
@@ -81,7 +94,8 @@ class Signals(Elaboratable):
 							width_temp.eq(width_temp-self.ps),
 							self.new_row.eq(0),
 						]
-					with m.If((height_temp == 0) & (width_temp == 2*self.ps)):
+					with m.If(((height_temp == 0) & (width_temp == 2*self.ps)) | \
+						((height_temp == 1) & (self.width == self.ps))):
 						m.d.sync += [
 							self.end_of_frame.eq(1),
 						]
-- 
2.43.0


From 924216753fff768c68e70eb856df23c726d7894f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:25 +0000
Subject: [PATCH 08/24] fix: core AXI lite: upper half of a table entry was
 never written

---
 migen_src/core_axi_lite.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/migen_src/core_axi_lite.py b/migen_src/core_axi_lite.py
index 6ca9560..593ece2 100644
--- a/migen_src/core_axi_lite.py
+++ b/migen_src/core_axi_lite.py
@@ -206,7 +206,7 @@ class CoreAxiLite(Elaboratable):
 		rp_data64_in = Signal(64)
 		rp_data64 = Signal(64)
 		m.d.comb += rp_data64.eq(self.rp_data)
-		m.d.comb += rp_data64_in.eq(0)
+		m.d.comb += rp_data64_in.eq(rp_data64)
 
 		# function that handle read/write operations on height and width register
 		def read_hw():
@@ -262,7 +262,7 @@ class CoreAxiLite(Elaboratable):
 					start = 32 + i*8
 					end = start+8
 					with m.If(wstrb_v[i]):
-						m.d.comb += rp_data64_in[start:end].eq(wdata_v[start:end])
+						m.d.comb += rp_data64_in[start:end].eq(wdata_v[start-32:end-32])
 					with m.Else():
 						m.d.comb += rp_data64_in[start:end].eq(rp_data64[start:end])
 			m.d.full += [
-- 
2.43.0


From 81323e4c3fa1e7731824c4d43679114f5d9714db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:25 +0000
Subject: [PATCH 09/24] fix: core AXI lite: frame reset left outputs and state
 machine out of step

---
 migen_src/core_axi_lite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/migen_src/core_axi_lite.py b/migen_src/core_axi_lite.py
index 593ece2..f30091b 100644
--- a/migen_src/core_axi_lite.py
+++ b/migen_src/core_axi_lite.py
@@ -288,7 +288,7 @@ class CoreAxiLite(Elaboratable):
 		def clean_write_debug():
 			pass
 
-		with m.FSM() as main:
+		with m.FSM(domain="full") as main:
 
 			with m.State("IDLE"):
 				#needed from other states
-- 
2.43.0


From ec1187820343fc3fd2e3f248791ad4dfaf88985d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:25 +0000
Subject: [PATCH 10/24] fix: core AXI lite: hold responses until taken, accept
 a write beat once

---
 migen_src/core_axi_lite.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/migen_src/core_axi_lite.py b/migen_src/core_axi_lite.py
index f30091b..b528d2a 100644
--- a/migen_src/core_axi_lite.py
+++ b/migen_src/core_axi_lite.py
@@ -291,11 +291,6 @@ class CoreAxiLite(Elaboratable):
 		with m.FSM(domain="full") as main:
 
 			with m.State("IDLE"):
-				#needed from other states
-				m.d.full += [
-					rvalid_v.eq(0),
-					bvalid_v.eq(0),
-				]
 				#read operation
 				with m.If(self.s_axi_ri.arvalid):
 					m.next = "READ_ADDRESS"
@@ -336,9 +331,15 @@ class CoreAxiLite(Elaboratable):
 				# decode error
 				with m.Else():
 					m.d.full += rresp_v.eq(3)
+				# data is valid until taken
+				m.d.full += rvalid_v.eq(1)
+				m.next = "READ_RESPONSE"
+
+
+			with m.State("READ_RESPONSE"):
 				# to finish
 				with m.If(self.s_axi_ri.rready):
-					m.d.full += rvalid_v.eq(1)
+					m.d.full += rvalid_v.eq(0)
 					m.next = "IDLE"
 
 
@@ -363,7 +364,7 @@ class CoreAxiLite(Elaboratable):
 
 			with m.State("WRITE_DATA"):
 				m.d.full += wready_v.eq(1)	# ready for data
-				with m.If(self.s_axi_wi.wvalid):
+				with m.If(self.s_axi_wi.wvalid & wready_v):
 					m.d.comb += [
 						wdata_v.eq(self.s_axi_wi.wdata),
 						wstrb_v.eq(self.s_axi_wi.wstrb),
@@ -381,6 +382,7 @@ class CoreAxiLite(Elaboratable):
 					# decode error
 					with m.Else():
 						m.d.full += bresp_v.eq(3)
+					m.d.full += wready_v.eq(0)	# done
 					m.next = "WRITE_RESPONSE"
 
 
@@ -389,9 +391,9 @@ class CoreAxiLite(Elaboratable):
 					clean_write_debug()
 				clean_write_hw()
 				clean_write_ssss()
-				m.d.full += wready_v.eq(0)
-				with m.If(self.s_axi_wi.bready):
-					m.d.full += bvalid_v.eq(1)
+				m.d.full += bvalid_v.eq(1)	# response is valid until taken
+				with m.If(bvalid_v & self.s_axi_wi.bready):
+					m.d.full += bvalid_v.eq(0)
 					m.next = "IDLE"
 
 		m.d.comb += [
-- 
2.43.0


From 88fd1f5441cd2c87cdaa59349764ccb07c2fed4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:25 +0000
Subject: [PATCH 11/24] fix: DMA AXI lite: hold responses until taken, accept a
 write beat once

---
 migen_src/dma_axi_lite.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/migen_src/dma_axi_lite.py b/migen_src/dma_axi_lite.py
index e409c42..b295871 100644
--- a/migen_src/dma_axi_lite.py
+++ b/migen_src/dma_axi_lite.py
@@ -207,11 +207,6 @@ class DMAAxiLite(Elaboratable):
 		with m.FSM() as main:
 
 			with m.State("IDLE"):
-				#needed from other states
-				m.d.sync += [
-					rvalid_v.eq(0),
-					bvalid_v.eq(0),
-				]
 				#read operation
 				with m.If(self.s_axi_ri_.arvalid):
 					m.next = "READ_ADDRESS"
@@ -236,9 +231,15 @@ class DMAAxiLite(Elaboratable):
 				# decode error
 				with m.Else():
 					m.d.sync += rresp_v.eq(3)
+				# data is valid until taken
+				m.d.sync += rvalid_v.eq(1)
+				m.next = "READ_RESPONSE"
+
+
+			with m.State("READ_RESPONSE"):
 				# to finish
 				with m.If(self.s_axi_ri_.rready):
-					m.d.sync += rvalid_v.eq(1)
+					m.d.sync += rvalid_v.eq(0)
 					m.next = "IDLE"
 
 
@@ -254,7 +255,7 @@ class DMAAxiLite(Elaboratable):
 			with m.State("WRITE_DATA"):
 				m.d.sync += awready_v.eq(0)	# done
 				m.d.sync += wready_v.eq(1)	# ready for data
-				with m.If(self.s_axi_wi_.wvalid):
+				with m.If(self.s_axi_wi_.wvalid & wready_v):
 					m.d.comb += [
 						wdata_v.eq(self.s_axi_wi_.wdata),
 						wstrb_v.eq(self.s_axi_wi_.wstrb),
@@ -265,14 +266,15 @@ class DMAAxiLite(Elaboratable):
 					# decode error
 					with m.Else():
 						m.d.sync += bresp_v.eq(3)
+					m.d.sync += wready_v.eq(0)	# done
 					m.next = "WRITE_RESPONSE"
 
 
 			with m.State("WRITE_RESPONSE"):
 				clean_write_basic()
-				m.d.sync += wready_v.eq(0)
-				with m.If(self.s_axi_wi_.bready):
-					m.d.sync += bvalid_v.eq(1)
+				m.d.sync += bvalid_v.eq(1)	# response is valid until taken
+				with m.If(bvalid_v & self.s_axi_wi_.bready):
+					m.d.sync += bvalid_v.eq(0)
 					m.next = "IDLE"
 
 		m.d.comb += [
-- 
2.43.0


From 610075eb42ea09a255cae8f566f680861aaa63ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:25 +0000
Subject: [PATCH 12/24] fix: AXI lite bridge: read and write response ids
 overwrote each other

---
 migen_src/axi_lite.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/migen_src/axi_lite.py b/migen_src/axi_lite.py
index f9219a6..1ed5deb 100644
--- a/migen_src/axi_lite.py
+++ b/migen_src/axi_lite.py
@@ -94,18 +94,11 @@ class AxiLite(Elaboratable):
 
 		m = Module()
 
-		rwid = Signal(12)
-
 		#main process
-		with m.If(self.s_axi_ri.arvalid):
-			m.d.sync += rwid.eq(self.s_axi_ri.arid)
-		with m.If(self.s_axi_wi.awvalid):
-			m.d.sync += rwid.eq(self.s_axi_wi.awid)
-
-		m.d.sync += [
-			self.s_axi_ro.rid.eq(rwid),
-			self.s_axi_wo.bid.eq(rwid),
-		]
+		with m.If(self.s_axi_ri.arvalid & self.m_axi_ri.arready):
+			m.d.sync += self.s_axi_ro.rid.eq(self.s_axi_ri.arid)
+		with m.If(self.s_axi_wi.awvalid & self.m_axi_wi.awready):
+			m.d.sync += self.s_axi_wo.bid.eq(self.s_axi_wi.awid)
 
 		# clk and reset
 		m.d.comb += [
-- 
2.43.0


From aaafb619ff72a3134a8906409e4f9385fefc624a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:25 +0000
Subject: [PATCH 13/24] fix: b16_b40: lost bytes (1 bit byte buffer) and ready
 under reset

---
 migen_src/b16_b40.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/migen_src/b16_b40.py b/migen_src/b16_b40.py
index 85f219f..96dff83 100644
--- a/migen_src/b16_b40.py
+++ b/migen_src/b16_b40.py
@@ -41,7 +41,7 @@ class B16B40(Elaboratable):
         self.valid_in = Signal(1)
         self.valid_out = Signal(1)
 
-        self.o_busy = Signal(1) #I'm busy
+        self.o_busy = Signal(1, reset=1) #I'm busy
         self.i_busy = Signal(1) #next busy
 
         self.ios = \
@@ -70,7 +70,7 @@ class B16B40(Elaboratable):
         m.d.comb += is_valid.eq(1)
 
         # buffer for the 0.5*input size
-        temp_8 = Signal(1)
+        temp_8 = Signal(8)
 
         # handle data_out
         with m.If(buff_chs==0):
@@ -91,7 +91,7 @@ class B16B40(Elaboratable):
                 m.d.full += buffer2_valid.eq(0)
 
         # fsm
-        with m.FSM() as fsm:
+        with m.FSM(domain="full") as fsm:
 
             # buffer 1 handling
             with m.State("BUFF1_IDLE"):
-- 
2.43.0


From 0944708eb3a41dac030266989d6cbff340ff3ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:26 +0000
Subject: [PATCH 14/24] fix: b16_b64: was not busy right after reset

---
 migen_src/b16_b64.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/migen_src/b16_b64.py b/migen_src/b16_b64.py
index ecd8e3a..9626b69 100644
--- a/migen_src/b16_b64.py
+++ b/migen_src/b16_b64.py
@@ -43,7 +43,7 @@ class B16B64(Elaboratable):
         self.end_in = Signal(1)
         self.end_out = Signal(1)
 
-        self.o_busy = Signal(1) #I'm busy
+        self.o_busy = Signal(1, reset=1) #I'm busy
         self.i_busy = Signal(1) #next busy
 
         self.ios = \
-- 
2.43.0


From bd6515b346e941dd102780aedae6fe4eb459b9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:26 +0000
Subject: [PATCH 15/24] fix: b64_b32: did not elaborate (fifo.replace), was not
 busy right after reset

---
 migen_src/b64_b32.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/migen_src/b64_b32.py b/migen_src/b64_b32.py
index bd5a1f4..632da2a 100644
--- a/migen_src/b64_b32.py
+++ b/migen_src/b64_b32.py
@@ -41,7 +41,7 @@ class B64B32(Elaboratable):
         self.valid_in = Signal(1)
         self.valid_out = Signal(1)
 
-        self.o_busy = Signal(1) #I'm busy
+        self.o_busy = Signal(1, reset=1) #I'm busy
         self.i_busy = Signal(1) #next busy
 
         self.ios = \
@@ -58,12 +58,6 @@ class B64B32(Elaboratable):
         m.submodules.fifo32 = fifo32
         m.submodules.fifo64 = fifo64
 
-        # set replace to zero
-        m.d.sync += [
-            fifo32.replace.eq(0),
-            fifo64.replace.eq(0),
-        ]
-
         # register
         reg = Signal(64)
 
-- 
2.43.0


From f6ffd17a0e3dacb72e0b2b5a51f72ae3d787abc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:07 +0000
Subject: [PATCH 16/24] fix: AXI HP reader: only a taken last beat ends a burst

---
 migen_src/axihp_reader.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/migen_src/axihp_reader.py b/migen_src/axihp_reader.py
index 3db010c..429e7f1 100644
--- a/migen_src/axihp_reader.py
+++ b/migen_src/axihp_reader.py
@@ -74,6 +74,7 @@ class AxiHPReader(Elaboratable):
 		data_en = Signal(1)
 		addr_en = Signal(1)
 		resp_en = Signal(1)
+		last_en = Signal(1)	# last beat of a burst taken
 
 
 		'''---------------------
@@ -105,6 +106,7 @@ class AxiHPReader(Elaboratable):
 		---------------------'''
 
 		m.d.comb += data_en.eq((rready==1) & (self.m_axi_ri.rvalid==1))
+		m.d.comb += last_en.eq((data_en==1) & (self.m_axi_ri.rlast==1))
 
 		# idle phase
 		with m.If(rready==0):
@@ -114,7 +116,7 @@ class AxiHPReader(Elaboratable):
 
 		# active phase
 		with m.Else():
-			with m.If(self.m_axi_ri.rlast):
+			with m.If(last_en):
 				m.d.sync += rready.eq(0)
 
 		m.d.comb += [
@@ -130,11 +132,11 @@ class AxiHPReader(Elaboratable):
 		---------------------'''
 
 		# one more
-		with m.If((addr_en==1) & (self.m_axi_ri.rlast==0)):
+		with m.If((addr_en==1) & (last_en==0)):
 			m.d.sync += active.eq(active + 1)
 
 		# one less
-		with m.Elif((addr_en==0) & (self.m_axi_ri.rlast==1)):
+		with m.Elif((addr_en==0) & (last_en==1)):
 			m.d.sync += active.eq(active - 1)
 
 		m.d.comb += self.inactive.eq(active==0)
-- 
2.43.0


From dc5db66a9131033e6ef91c3e5456d60bf7fc6cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:07 +0000
Subject: [PATCH 17/24] fix: AXI HP writer: last flag was one beat late,
 stalled last beats were lost

---
 migen_src/axihp_writer.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/migen_src/axihp_writer.py b/migen_src/axihp_writer.py
index 9434fa4..624c70d 100644
--- a/migen_src/axihp_writer.py
+++ b/migen_src/axihp_writer.py
@@ -87,6 +87,7 @@ class AxiHPWriter(Elaboratable):
 		data_en = Signal(1)
 		addr_en = Signal(1)
 		resp_en = Signal(1)
+		last_en = Signal(1)	# last beat of a burst taken
 
 
 		'''---------------------
@@ -120,18 +121,15 @@ class AxiHPWriter(Elaboratable):
 		# wlast circuit
 		counter = Signal(4)
 		with m.If(data_en):
-			with m.If(counter==(self.data_c-1)):
-				m.d.sync += [
-					counter.eq(0),
-					wlast.eq(1),
-				]
+			with m.If(wlast):
+				m.d.sync += counter.eq(0)
 			with m.Else():
-				m.d.sync += [
-					wlast.eq(0),
-					counter.eq(counter + 1),
-				]
+				m.d.sync += counter.eq(counter + 1)
+
+		m.d.comb += wlast.eq(counter==(self.data_c-1))
 
 		m.d.comb += data_en.eq((wvalid==1) & (self.m_axi_wi.wready==1))
+		m.d.comb += last_en.eq((data_en==1) & (wlast==1))
 
 		# idle phase
 		with m.If(wvalid==0):
@@ -141,7 +139,7 @@ class AxiHPWriter(Elaboratable):
 
 		# active phase
 		with m.Else():
-			with m.If(wlast):
+			with m.If(last_en):
 				m.d.sync += wvalid.eq(0)
 
 		m.d.comb += [
@@ -180,11 +178,11 @@ class AxiHPWriter(Elaboratable):
 		---------------------'''
 
 		# active_proc
-		with m.If((addr_en==1) & (wlast==0)):
+		with m.If((addr_en==1) & (last_en==0)):
 			# one more
 			m.d.sync += active.eq(active + 1)
 
-		with m.Elif((addr_en==0) & (wlast==1)):
+		with m.Elif((addr_en==0) & (last_en==1)):
 			# one less
 			m.d.sync += active.eq(active - 1)
 
-- 
2.43.0


From 0c4f18a40619dadbacf244360118fed0b39564b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:07 +0000
Subject: [PATCH 18/24] fix: AXI HP writer: responses were never taken after
 the writer was disabled

---
 migen_src/axihp_writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/migen_src/axihp_writer.py b/migen_src/axihp_writer.py
index 624c70d..1074af6 100644
--- a/migen_src/axihp_writer.py
+++ b/migen_src/axihp_writer.py
@@ -158,8 +158,8 @@ class AxiHPWriter(Elaboratable):
 
 		# idle phase
 		with m.If(bready==0):
-			# writer enabled
-			with m.If(self.enable):
+			# writer enabled, or responses still to come
+			with m.If((self.enable==1) | (unconf!=0)):
 				m.d.sync += bready.eq(1)
 
 		# active phase
-- 
2.43.0


From cc0997fe4d25ef57081a12e68c0087fdbc4ccdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:22 +0000
Subject: [PATCH 19/24] fix: full AXI top: the burst limits never stopped the
 memory reads and writes

---
 migen_src/beta_integration_fullaxi.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/migen_src/beta_integration_fullaxi.py b/migen_src/beta_integration_fullaxi.py
index 8075a6a..4f4c1de 100644
--- a/migen_src/beta_integration_fullaxi.py
+++ b/migen_src/beta_integration_fullaxi.py
@@ -69,22 +69,17 @@ class BetaIntegrationFullAxi(Elaboratable):
 		read_end = Signal(1)
 		write_end = Signal(1)
 
+		# stop after the whole frame is read / the output area is full
 		m.d.comb += [
-			read_end.eq(0),
-			write_end.eq(0),
+			read_end.eq(counter_read==196608),
+			write_end.eq(counter_write==131072),
 		]
 
 		with m.If((address_gen_read.address_valid==1)&(axihp_reader.addr_enable==1)):
-			with m.If(counter_read==196608):
-				m.d.comb += read_end.eq(1)
-			with m.Else():
-				m.d.sync += counter_read.eq(counter_read + 1)
+			m.d.sync += counter_read.eq(counter_read + 1)
 
 		with m.If((address_gen_write.address_valid==1)&(axihp_writer.addr_enable==1)):
-			with m.If(counter_write==131072):
-				m.d.comb += write_end.eq(1)
-			with m.Else():
-				m.d.sync += counter_write.eq(counter_write + 1)
+			m.d.sync += counter_write.eq(counter_write + 1)
 
 		# dma_axi_lite
 		m.d.comb += [
-- 
2.43.0


From 4a9ffe7995eae396383a39d24a4da3e144d422c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:47 +0000
Subject: [PATCH 20/24] fix: markers: keep a word offered to a busy sink when
 the frame is cut short

---
 migen_src/markers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/migen_src/markers.py b/migen_src/markers.py
index 325cb81..a24b2ad 100644
--- a/migen_src/markers.py
+++ b/migen_src/markers.py
@@ -75,6 +75,10 @@ class Markers(Elaboratable):
         end_cond = Signal(1)
         m.d.sync += end_cond.eq((self.o_busy==0)&(self.valid_in==1)&(self.end_in==1))
 
+        # a word is offered and not taken yet
+        held = Signal(1)
+        m.d.sync += held.eq((self.valid_out==1)&(self.i_busy==1))
+
         # late2_busy_i = Signal(1)
         # late2_valid_i = Signal(1)
         # late2_end_i = Signal(1)
@@ -153,7 +157,7 @@ class Markers(Elaboratable):
                 # with m.If((late2_busy_i==0)&(late2_valid_i==1)&(late2_end_i==1)):
                 with m.If(end_cond):
                     m.next = "ENDING_MARKER"
-                with m.Elif(self.force_end_in):
+                with m.Elif((self.force_end_in==1)&(held==0)):
                     m.next = "FORCE_ENDING_MARKER"
                 with m.Else():
                     # m.d.comb += [
-- 
2.43.0


From 8b123eaf5efc4f3f4ea5855821e54cb2e8367a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:41 +0000
Subject: [PATCH 21/24] fix: delayer: with two stages the output rose without
 any input

---
 migen_src/delayer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/migen_src/delayer.py b/migen_src/delayer.py
index 46245cb..50f060f 100644
--- a/migen_src/delayer.py
+++ b/migen_src/delayer.py
@@ -26,7 +26,7 @@ class Delayer(Elaboratable):
 		with m.If(timer_start):
 			m.d.sync += self.timer.eq(self.timer - 1)
 		
-		m.d.sync += out_val.eq((self.timer == 0)| out_val)
+		m.d.sync += out_val.eq(((self.timer == 0) & timer_start) | out_val)
 		m.d.comb += self.out_sig.eq(out_val)
 
 		return m
-- 
2.43.0


From f2ae67c661ad1622efcfe28f1a3b14b80fd9e21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:25 +0000
Subject: [PATCH 22/24] fix: driver: get_ssss left out the last category of the
 Huffman table

---
 software/src/core_axi_lite.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/software/src/core_axi_lite.cpp b/software/src/core_axi_lite.cpp
index 656daae..bab9647 100644
--- a/software/src/core_axi_lite.cpp
+++ b/software/src/core_axi_lite.cpp
@@ -35,7 +35,7 @@ vector<string> CoreAXILite::get_ssss()
     // get ssss codes from axi lite
     vector<uint64_t> ssss_codes;
     uint64_t code = 0;
-    for(int i=0; i<2*bit_depth; i++){
+    for(int i=0; i<2*(bit_depth+1); i++){
         if(i%2==0){
             code = __get(SSSS_OFFSET+i);
         } else {
@@ -45,7 +45,7 @@ vector<string> CoreAXILite::get_ssss()
     }
     // get ssss info form them
     vector<string> ssss;
-    for(int i=0; i<bit_depth; i++) {
+    for(int i=0; i<=bit_depth; i++) {
         uint32_t code_length = (ssss_codes[i] >> (16+bit_depth));
         uint32_t mask = pow(2, code_length) - 1;
         uint32_t ssss_code = 0;
-- 
2.43.0


From dc3e8f356ac9a2581750bedd249a0680d269cad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:34 +0000
Subject: [PATCH 23/24] fix: test program: the last byte of a reference of odd
 length was never compared

---
 software/src/xilinx_test.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/software/src/xilinx_test.cpp b/software/src/xilinx_test.cpp
index b284358..b06df88 100644
--- a/software/src/xilinx_test.cpp
+++ b/software/src/xilinx_test.cpp
@@ -285,10 +285,11 @@ void check_last_marker(volatile void* v_dest_addr, uint32_t size)
 void validate(volatile void* v_dest_addr, struct mem_data lj92_struct)
 {
     bool failed = false;
+    uint32_t length = divisible_2(lj92_struct.length);
 
     volatile uint32_t* core = (uint32_t*)(((uint8_t*)v_dest_addr) + 16);
     volatile uint32_t* lj92 = (uint32_t*)((uint8_t*)lj92_struct.pointer);
-    for(int i=0; i<(lj92_struct.length/4); i++) {
+    for(int i=0; i<(length/4); i++) {
         if(core[i] != lj92[i]) {
             log("Validation failed at word: " + to_string(i));
 
@@ -305,7 +306,7 @@ void validate(volatile void* v_dest_addr, struct mem_data lj92_struct)
     if(!failed) {
         volatile uint8_t* core_8 = ((uint8_t*)v_dest_addr) + 16;
         volatile uint8_t* lj92_8 = (uint8_t*)lj92_struct.pointer;
-        for(int i=lj92_struct.length-10; i<lj92_struct.length; i++) {
+        for(int i=length-10; i<length; i++) {
             if(core_8[i] != lj92_8[i]) {
                 log("Validation failed at byte: " + to_string(i));
 
-- 
2.43.0


From 6a11bfd41d7e442a93bf7b211f53ede174307abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:35 +0000
Subject: [PATCH 24/24] Revert "fix: test program: the last byte of a reference
 of odd length was never compared"

This reverts commit dc3e8f356ac9a2581750bedd249a0680d269cad2.
---
 software/src/xilinx_test.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/software/src/xilinx_test.cpp b/software/src/xilinx_test.cpp
index b06df88..b284358 100644
--- a/software/src/xilinx_test.cpp
+++ b/software/src/xilinx_test.cpp
@@ -285,11 +285,10 @@ void check_last_marker(volatile void* v_dest_addr, uint32_t size)
 void validate(volatile void* v_dest_addr, struct mem_data lj92_struct)
 {
     bool failed = false;
-    uint32_t length = divisible_2(lj92_struct.length);
 
     volatile uint32_t* core = (uint32_t*)(((uint8_t*)v_dest_addr) + 16);
     volatile uint32_t* lj92 = (uint32_t*)((uint8_t*)lj92_struct.pointer);
-    for(int i=0; i<(length/4); i++) {
+    for(int i=0; i<(lj92_struct.length/4); i++) {
         if(core[i] != lj92[i]) {
             log("Validation failed at word: " + to_string(i));
 
@@ -306,7 +305,7 @@ void validate(volatile void* v_dest_addr, struct mem_data lj92_struct)
     if(!failed) {
         volatile uint8_t* core_8 = ((uint8_t*)v_dest_addr) + 16;
         volatile uint8_t* lj92_8 = (uint8_t*)lj92_struct.pointer;
-        for(int i=length-10; i<length; i++) {
+        for(int i=lj92_struct.length-10; i<lj92_struct.length; i++) {
             if(core_8[i] != lj92_8[i]) {
                 log("Validation failed at byte: " + to_string(i));
 
-- 
2.43.0

