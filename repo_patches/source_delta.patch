From d6d7732dd3a7f31d872a2a173dc0e530b3eea0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:37:16 +0000
Subject: [PATCH 01/27] fix: apply the mip/sip write masks in the reference CSR
 model

The write path compared the internal register index with the CSR numbers,
so the branch was never taken: writes to mip were not masked and writes to
sip were lost on the next interrupt-pending refresh.
---
 diff/ref.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index e7e6fe1..11d6e17 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -936,13 +936,13 @@ void RefCpu::RV32CSR() {
         // sie 始终是 mie 的影子 (masked by 0x333)
         state.csr[csr_sie] = state.csr[csr_mie] & sie_mask;
 
-      } else if (csr_idx == number_mip || csr_idx == number_sip) {
+      } else if (csr_idx == csr_mip || csr_idx == csr_sip) {
         uint32_t mip_mask =
             0x00000bbb; // MEIP(11), SEIP(9), MTIP(7), STIP(5), MSIP(3), SSIP(1)
         uint32_t sip_mask =
             0x00000333; // SEIP(9), UEIP(8), STIP(5), UTIP(4), SSIP(1), USIP(0)
 
-        if (csr_idx == number_sip) {
+        if (csr_idx == csr_sip) {
           // sip: 0x333 (Include User-Level Interrupt bits)
           state.csr[csr_mip] =
               (state.csr[csr_mip] & ~sip_mask) | (csr_wdata & sip_mask);
-- 
2.43.0


From b5bb0d1c74b220ff0c65144e077372b072ff5065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:37:46 +0000
Subject: [PATCH 02/27] fix: let CSRRWI with a zero immediate write the CSR in
 the reference model

Only CSRRW was treated as an unconditional write, so csrwi csr, 0 left the
register unchanged.
---
 diff/ref.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index 11d6e17..f0e8eb5 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -860,9 +860,9 @@ void RefCpu::RV32CSR() {
 
   uint32_t reg_rdata1 = state.gpr[rs1];
 
-  bool we = funct3 == 1 || rs1 != 0;
-  bool re = funct3 != 1 || rd != 0;
   uint32_t wcmd = funct3 & 0b11;
+  bool we = wcmd == CSR_W || rs1 != 0;
+  bool re = wcmd != CSR_W || rd != 0;
   uint32_t wdata;
 
   if (funct3 & 0b100) {
-- 
2.43.0


From 8a2013ba63e6408bdf5ef306abb69f60e7a3c80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:37:46 +0000
Subject: [PATCH 03/27] fix: never delegate traps raised in machine mode

With medeleg[8] set a machine-mode ECALL reported cause 0 instead of 11, and
page faults of MPRV accesses in machine mode were sent to supervisor mode.
Both the CSR unit and the reference model are corrected.
---
 back-end/Exu/Csr.cpp | 4 +++-
 diff/ref.cpp         | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/back-end/Exu/Csr.cpp b/back-end/Exu/Csr.cpp
index dc3ec4d..8ac77c7 100644
--- a/back-end/Exu/Csr.cpp
+++ b/back-end/Exu/Csr.cpp
@@ -119,7 +119,9 @@ void Csr::comb_exception() {
   uint32_t mie_reg = CSR_RegFile[csr_mie];
   uint32_t mip_reg = CSR_RegFile[csr_mip];
   uint32_t mideleg = CSR_RegFile[csr_mideleg];
-  uint32_t medeleg = CSR_RegFile[csr_medeleg];
+  // M 态陷入永不委托
+  uint32_t medeleg =
+      privilege == RISCV_MODE_M ? 0 : (uint32_t)CSR_RegFile[csr_medeleg];
   uint32_t mtvec = CSR_RegFile[csr_mtvec];
   uint32_t stvec = CSR_RegFile[csr_stvec];
 
diff --git a/diff/ref.cpp b/diff/ref.cpp
index f0e8eb5..cf9da14 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -305,7 +305,8 @@ void RefCpu::exception(uint32_t trap_val) {
 
   uint32_t mstatus = state.csr[csr_mstatus];
   uint32_t sstatus = state.csr[csr_sstatus];
-  uint32_t medeleg = state.csr[csr_medeleg];
+  // M 态陷入永不委托
+  uint32_t medeleg = privilege == 3 ? 0 : state.csr[csr_medeleg];
   uint32_t mtvec = state.csr[csr_mtvec];
   uint32_t stvec = state.csr[csr_stvec];
 
-- 
2.43.0


From 9b9fc62351219a7ade83bf98253082847f6655b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:37:46 +0000
Subject: [PATCH 04/27] fix: fault on supervisor fetch from a user superpage in
 the reference model

SUM never permits instruction fetches; the 4 KiB path already rejected them.
---
 diff/ref.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index cf9da14..88c95db 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -1764,8 +1764,8 @@ bool RefCpu::va2pa(uint32_t &p_addr, uint32_t v_addr, uint32_t type) {
     bool is_user_page = (pte1 & PTE_U) != 0;
     if (eff_priv == 0 && !is_user_page)
       return false; // U-mode 访问 S-page -> Fault
-    if (eff_priv == 1 && is_user_page && !sum)
-      return false; // S-mode 访问 U-page 且 SUM=0 -> Fault
+    if (eff_priv == 1 && is_user_page && (type == 0 || !sum))
+      return false; // S-mode 取指 U-page，或访问 U-page 且 SUM=0 -> Fault
 
     // 对齐检查 (Superpage 要求 PPN[0] 为 0)
     // PPN[0] 对应 PTE 的 [19:10] 位
-- 
2.43.0


From 3915f1b93dff2329efd1b8585821d7570312cd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:37:46 +0000
Subject: [PATCH 05/27] fix: do not repeat device side effects of an earlier
 store on LR.W

LR.W and a failing SC.W called the store routine with the address and data
of the previous store, so a preceding UART or PLIC register write was acted
on a second time.
---
 diff/ref.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index 88c95db..3600c02 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -1105,7 +1105,9 @@ void RefCpu::RV32A() {
   }
   }
 
-  store_data();
+  if (state.store) {
+    store_data();
+  }
   state.pc = next_pc;
 }
 
-- 
2.43.0


From 1c14f0cb73f1ed87ea7ebb01d8c3e55aad24d22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:37:46 +0000
Subject: [PATCH 06/27] fix: keep fetch faults and interrupts apart from a
 stale or unexecuted ECALL

The reference trap routine looked at the last fetched instruction and at the
interrupt flags of the previous step even when the fetch itself faulted, and
merged the ECALL cause into an interrupt taken at that instruction (for
example scause 0x80000008 for a software interrupt pending at a user ECALL).
---
 diff/ref.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index 3600c02..be07786 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -268,6 +268,8 @@ void RefCpu::exec() {
   is_csr = is_exception = is_br = br_taken = false;
   illegal_exception = page_fault_load = page_fault_inst = page_fault_store =
       asy = is_mmio_load = is_mmio_store = false;
+  M_software_interrupt = M_timer_interrupt = M_external_interrupt = false;
+  S_software_interrupt = S_timer_interrupt = S_external_interrupt = false;
   state.store = false;
 
   uint32_t p_addr = state.pc;
@@ -299,9 +301,14 @@ void RefCpu::exception(uint32_t trap_val) {
   uint32_t next_pc = state.pc + 4;
 
   // 重新获取当前状态（因为exec可能没传进来最新的）
-  bool ecall = (Instruction == INST_ECALL);
-  bool mret = (Instruction == INST_MRET);
-  bool sret = (Instruction == INST_SRET);
+  // 取指缺页或中断时当前指令并未执行
+  bool interrupt = M_software_interrupt || M_timer_interrupt ||
+                   M_external_interrupt || S_software_interrupt ||
+                   S_timer_interrupt || S_external_interrupt;
+  bool executed = !page_fault_inst && !interrupt;
+  bool ecall = executed && (Instruction == INST_ECALL);
+  bool mret = executed && (Instruction == INST_MRET);
+  bool sret = executed && (Instruction == INST_SRET);
 
   uint32_t mstatus = state.csr[csr_mstatus];
   uint32_t sstatus = state.csr[csr_sstatus];
-- 
2.43.0


From 8f026b4053ce1a9d3934953bca163a2421b48220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:37:46 +0000
Subject: [PATCH 07/27] fix: honour medeleg for illegal instructions in the
 reference model

The CSR unit delegates them; the reference always trapped to machine mode.
---
 diff/ref.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index be07786..52fbdc9 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -326,6 +326,7 @@ void RefCpu::exception(uint32_t trap_val) {
   bool medeleg_page_fault_inst = (medeleg >> 12) & 1;
   bool medeleg_page_fault_load = (medeleg >> 13) & 1;
   bool medeleg_page_fault_store = (medeleg >> 15) & 1;
+  bool medeleg_illegal_inst = (medeleg >> 2) & 1;
 
   // 这里直接复用成员变量里的中断状态 (假设RISCV函数刚跑完，状态是新的)
   // 如果不是，需要重新计算 M_software_interrupt 等
@@ -337,7 +338,8 @@ void RefCpu::exception(uint32_t trap_val) {
       (ecall && (privilege == 3)) ||
       (page_fault_inst && !medeleg_page_fault_inst) ||
       (page_fault_load && !medeleg_page_fault_load) ||
-      (page_fault_store && !medeleg_page_fault_store) || illegal_exception;
+      (page_fault_store && !medeleg_page_fault_store) ||
+      (illegal_exception && !medeleg_illegal_inst);
 
   bool STrap = S_software_interrupt || S_timer_interrupt ||
                S_external_interrupt ||
@@ -345,7 +347,8 @@ void RefCpu::exception(uint32_t trap_val) {
                (ecall && (privilege == 1) && medeleg_S_ecall) ||
                (page_fault_inst && medeleg_page_fault_inst) ||
                (page_fault_load && medeleg_page_fault_load) ||
-               (page_fault_store && medeleg_page_fault_store);
+               (page_fault_store && medeleg_page_fault_store) ||
+               (illegal_exception && medeleg_illegal_inst);
 
   if (MTrap) {
     state.csr[csr_mepc] = state.pc;
@@ -431,6 +434,8 @@ void RefCpu::exception(uint32_t trap_val) {
       exception_code = 13;
     else if (page_fault_store && medeleg_page_fault_store)
       exception_code = 15;
+    else if (illegal_exception && medeleg_illegal_inst)
+      exception_code = 2;
 
     cause |= exception_code;
     state.csr[csr_scause] = cause;
-- 
2.43.0


From fdf28f450bb0aeda4e7daadb1bc48658906a88fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:37:46 +0000
Subject: [PATCH 08/27] fix: strip the mode bits of mtvec/stvec from the
 exception target

In vectored mode synchronous exceptions were sent to base + 1.
---
 back-end/Exu/Csr.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/back-end/Exu/Csr.cpp b/back-end/Exu/Csr.cpp
index 8ac77c7..43afc51 100644
--- a/back-end/Exu/Csr.cpp
+++ b/back-end/Exu/Csr.cpp
@@ -196,7 +196,7 @@ void Csr::comb_exception() {
       out.csr2front->trap_pc = CSR_RegFile[csr_mtvec] & 0xfffffffc;
       out.csr2front->trap_pc += 4 * (cause & 0x7fffffff);
     } else {
-      out.csr2front->trap_pc = CSR_RegFile[csr_mtvec];
+      out.csr2front->trap_pc = CSR_RegFile[csr_mtvec] & 0xfffffffc;
     }
 
     mstatus = (mstatus & ~MSTATUS_MPP) | ((privilege & 0x3) << 11);
@@ -249,7 +249,7 @@ void Csr::comb_exception() {
       out.csr2front->trap_pc = CSR_RegFile[csr_stvec] & 0xfffffffc;
       out.csr2front->trap_pc += 4 * (cause & 0x7fffffff);
     } else {
-      out.csr2front->trap_pc = CSR_RegFile[csr_stvec];
+      out.csr2front->trap_pc = CSR_RegFile[csr_stvec] & 0xfffffffc;
     }
 
     // 更新 sstatus
-- 
2.43.0


From 856cff7b3c5843d7d2faae8113cea931e0e48dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:20:26 +0000
Subject: [PATCH 09/27] fix: drop a latched CSR write when the pipeline is
 flushed

---
 back-end/Exu/Csr.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/back-end/Exu/Csr.cpp b/back-end/Exu/Csr.cpp
index 43afc51..5be549a 100644
--- a/back-end/Exu/Csr.cpp
+++ b/back-end/Exu/Csr.cpp
@@ -396,6 +396,11 @@ void Csr::comb_csr_write() {
 
     csr_we_1 = false;
   }
+
+  // 冲刷会取消尚未提交的 CSR 指令，其锁存的写请求一并作废
+  if (in.rob_bcast->flush) {
+    csr_we_1 = false;
+  }
 }
 
 void Csr::seq() {
-- 
2.43.0


From fd549736e80b5e94044219411855f7823c2eeaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:24:34 +0000
Subject: [PATCH 10/27] fix: drop flushed multi-cycle operations in the
 execution units

The full-flush comparison promoted the 16-bit branch mask to int, so it never
matched and operations without a branch dependency survived a pipeline flush.
---
 back-end/Exu/include/AbstractFU.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/back-end/Exu/include/AbstractFU.h b/back-end/Exu/include/AbstractFU.h
index 6065305..8a2429f 100644
--- a/back-end/Exu/include/AbstractFU.h
+++ b/back-end/Exu/include/AbstractFU.h
@@ -117,7 +117,7 @@ public:
 
   void comb_ctrl() override {
     if (in.flush) {
-      if (in.flush_mask == ~wire<BR_MASK_WIDTH>(0)) {
+      if (in.flush_mask == static_cast<wire<BR_MASK_WIDTH>>(~wire<BR_MASK_WIDTH>(0))) {
         pipeline_1.clear();
       } else {
         auto it = pipeline_1.begin();
@@ -203,7 +203,7 @@ public:
 
   void comb_ctrl() override {
     if (in.flush && busy_1 &&
-        (in.flush_mask == ~wire<BR_MASK_WIDTH>(0) ||
+        (in.flush_mask == static_cast<wire<BR_MASK_WIDTH>>(~wire<BR_MASK_WIDTH>(0)) ||
          (current_inst_1.br_mask & in.flush_mask) != 0)) {
       busy_1 = false;
       done_cycle_1 = 0;
-- 
2.43.0


From 8f601e6927544ec5afed067b9aa5b3fb0ab20f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:52:06 +0000
Subject: [PATCH 11/27] fix: read x0 as zero while a load to x0 writes back

---
 back-end/Prf.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/back-end/Prf.cpp b/back-end/Prf.cpp
index a4e8e01..6a4695d 100644
--- a/back-end/Prf.cpp
+++ b/back-end/Prf.cpp
@@ -14,7 +14,8 @@ static inline bool is_killed(const ExePrfIO::ExePrfWbUop &uop,
 inline uint32_t read_operand_with_bypass(
     uint32_t preg, bool src_en, const reg<32> *reg_file,
     const ExePrfIO::ExePrfEntry *inst_r, const ExePrfIO *exe2prf) {
-  if (!src_en) {
+  // preg 0 即 x0：即使有写回/旁路条目指向它（如 rd=x0 的 load），也恒为 0。
+  if (!src_en || preg == 0) {
     return 0;
   }
 
-- 
2.43.0


From 22af705a427de33a3bedb408ac38807c26de9aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:50:16 +0000
Subject: [PATCH 12/27] fix: wake dependents of a division and an FP result
 that finish together

Both share an issue port and used one wake-up channel, so the announcement of
the division was overwritten and its dependents waited forever. Give every
MUL, DIV and FP unit its own channel.
---
 back-end/Isu.cpp         | 39 +++++++++------------------------------
 include/config.h         |  3 ++-
 include/config.h.default |  3 ++-
 include/config.h.large   |  3 ++-
 include/config.h.medium  |  3 ++-
 include/config.h.small   |  3 ++-
 6 files changed, 19 insertions(+), 35 deletions(-)

diff --git a/back-end/Isu.cpp b/back-end/Isu.cpp
index 48ab793..ab06070 100644
--- a/back-end/Isu.cpp
+++ b/back-end/Isu.cpp
@@ -337,44 +337,29 @@ void Isu::comb_awake() {
     out.iss_awake->wake[i].preg = 0;
   }
 
-  uint64_t delayed_mask = OP_MASK_MUL | OP_MASK_DIV | OP_MASK_FP | OP_MASK_CSR;
   uint64_t fast_mask = OP_MASK_ALU;
 
+  // 每个 MUL/DIV/FP 单元独占一个延迟唤醒通道：同一端口上的 DIV 与 FP 可能在
+  // 同一拍到期。
   int lsu_base = 0;
-  int delayed_base = lsu_base + LSU_LOAD_WB_WIDTH;
-  int fast_base = delayed_base + count_ports_with_mask(delayed_mask);
+  int mul_base = lsu_base + LSU_LOAD_WB_WIDTH;
+  int div_base = mul_base + ISU_MUL_WAKE_UNIT_NUM;
+  int fp_base = div_base + ISU_DIV_WAKE_UNIT_NUM;
+  int fast_base = fp_base + ISU_FP_WAKE_UNIT_NUM;
 
-  int delayed_ch_map[ISSUE_WIDTH];
   int fast_ch_map[ISSUE_WIDTH];
   for (int i = 0; i < ISSUE_WIDTH; i++) {
-    delayed_ch_map[i] = -1;
     fast_ch_map[i] = -1;
   }
   
-  int cur_del = delayed_base;
   int cur_fst = fast_base;
   for (int i = 0; i < ISSUE_WIDTH; i++) {
     uint64_t cap = get_port_capability(i);
-    if (cap & delayed_mask) {
-      delayed_ch_map[i] = cur_del++;
-    }
     if (cap & fast_mask) {
       fast_ch_map[i] = cur_fst++;
     }
   }
 
-
-  auto get_port_for_unit = [](uint64_t op_mask, int unit_idx) {
-    int seen = 0;
-    for (int p = 0; p < ISSUE_WIDTH; p++) {
-      if (get_port_capability(p) & op_mask) {
-        if (seen == unit_idx) return p;
-        seen++;
-      }
-    }
-    return -1;
-  };
-
   // 来源 A: 慢速唤醒 (来自写回阶段：Load / 缓存缺失)
   for (int i = 0; i < LSU_LOAD_WB_WIDTH; i++) {
     if (in.prf_awake->wake[i].valid) {
@@ -388,9 +373,7 @@ void Isu::comb_awake() {
   for (int i = 0; i < ISU_DIV_WAKE_SLOT_NUM; i++) {
     const auto &slot = div_wake_slots[i];
     if (slot.valid && slot.countdown == 0) {
-      int port = get_port_for_unit(OP_MASK_DIV, i);
-      int ch = delayed_ch_map[port];
-      Assert(ch != -1);
+      int ch = div_base + i;
       Assert(!out.iss_awake->wake[ch].valid && "Delayed writeback collision");
       out.iss_awake->wake[ch].valid = true;
       out.iss_awake->wake[ch].preg = slot.dest_preg;
@@ -401,9 +384,7 @@ void Isu::comb_awake() {
   for (int i = 0; i < ISU_FP_WAKE_SLOT_NUM; i++) {
     const auto &slot = fp_wake_slots[i];
     if (slot.valid && slot.countdown == 0) {
-      int port = get_port_for_unit(OP_MASK_FP, i);
-      int ch = delayed_ch_map[port];
-      Assert(ch != -1);
+      int ch = fp_base + i;
       Assert(!out.iss_awake->wake[ch].valid && "Delayed writeback collision");
       out.iss_awake->wake[ch].valid = true;
       out.iss_awake->wake[ch].preg = slot.dest_preg;
@@ -415,9 +396,7 @@ void Isu::comb_awake() {
     if (MUL_MAX_LATENCY > 1) {
       const auto &slot = mul_wake_pipe[ISU_MUL_WAKE_DEPTH - 1][i];
       if (slot.valid) {
-        int port = get_port_for_unit(OP_MASK_MUL, i);
-        int ch = delayed_ch_map[port];
-        Assert(ch != -1);
+        int ch = mul_base + i;
         Assert(!out.iss_awake->wake[ch].valid && "Delayed writeback collision");
         out.iss_awake->wake[ch].valid = true;
         out.iss_awake->wake[ch].preg = slot.dest_preg;
diff --git a/include/config.h b/include/config.h
index 5ca7cc2..3f68891 100644
--- a/include/config.h
+++ b/include/config.h
@@ -445,7 +445,8 @@ constexpr int DTLB_ENTRIES = 16;
 
 constexpr int MAX_WAKEUP_PORTS =
     LSU_LOAD_WB_WIDTH + count_ports_with_mask(OP_MASK_ALU) +
-    count_ports_with_mask(OP_MASK_MUL | OP_MASK_DIV | OP_MASK_FP | OP_MASK_CSR);
+    count_ports_with_mask(OP_MASK_MUL) + count_ports_with_mask(OP_MASK_DIV) +
+    count_ports_with_mask(OP_MASK_FP);
 
 // ============================================================
 // ISU Scheduling Policy
diff --git a/include/config.h.default b/include/config.h.default
index 512bd45..af23f3a 100644
--- a/include/config.h.default
+++ b/include/config.h.default
@@ -461,7 +461,8 @@ constexpr int DTLB_ENTRIES = 64;
 
 constexpr int MAX_WAKEUP_PORTS =
     LSU_LOAD_WB_WIDTH + count_ports_with_mask(OP_MASK_ALU) +
-    count_ports_with_mask(OP_MASK_MUL | OP_MASK_DIV | OP_MASK_FP | OP_MASK_CSR);
+    count_ports_with_mask(OP_MASK_MUL) + count_ports_with_mask(OP_MASK_DIV) +
+    count_ports_with_mask(OP_MASK_FP);
 
 // ============================================================
 // ISU Scheduling Policy
diff --git a/include/config.h.large b/include/config.h.large
index 36bde1e..b09cd3c 100644
--- a/include/config.h.large
+++ b/include/config.h.large
@@ -448,7 +448,8 @@ constexpr int DTLB_ENTRIES = 32;
 
 constexpr int MAX_WAKEUP_PORTS =
     LSU_LOAD_WB_WIDTH + count_ports_with_mask(OP_MASK_ALU) +
-    count_ports_with_mask(OP_MASK_MUL | OP_MASK_DIV | OP_MASK_FP | OP_MASK_CSR);
+    count_ports_with_mask(OP_MASK_MUL) + count_ports_with_mask(OP_MASK_DIV) +
+    count_ports_with_mask(OP_MASK_FP);
 
 // ============================================================
 // ISU Scheduling Policy
diff --git a/include/config.h.medium b/include/config.h.medium
index 8ffdec5..2be062f 100644
--- a/include/config.h.medium
+++ b/include/config.h.medium
@@ -445,7 +445,8 @@ constexpr int DTLB_ENTRIES = 32;
 
 constexpr int MAX_WAKEUP_PORTS =
     LSU_LOAD_WB_WIDTH + count_ports_with_mask(OP_MASK_ALU) +
-    count_ports_with_mask(OP_MASK_MUL | OP_MASK_DIV | OP_MASK_FP | OP_MASK_CSR);
+    count_ports_with_mask(OP_MASK_MUL) + count_ports_with_mask(OP_MASK_DIV) +
+    count_ports_with_mask(OP_MASK_FP);
 
 // ============================================================
 // ISU Scheduling Policy
diff --git a/include/config.h.small b/include/config.h.small
index 5ca7cc2..3f68891 100644
--- a/include/config.h.small
+++ b/include/config.h.small
@@ -445,7 +445,8 @@ constexpr int DTLB_ENTRIES = 16;
 
 constexpr int MAX_WAKEUP_PORTS =
     LSU_LOAD_WB_WIDTH + count_ports_with_mask(OP_MASK_ALU) +
-    count_ports_with_mask(OP_MASK_MUL | OP_MASK_DIV | OP_MASK_FP | OP_MASK_CSR);
+    count_ports_with_mask(OP_MASK_MUL) + count_ports_with_mask(OP_MASK_DIV) +
+    count_ports_with_mask(OP_MASK_FP);
 
 // ============================================================
 // ISU Scheduling Policy
-- 
2.43.0


From 35878c7d2f3a890de2dbd8b3cbacfb87e80d5fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:40:36 +0000
Subject: [PATCH 13/27] fix: answer loads from the current copy of a line being
 filled

A fill can wait in the second stage of the data cache while the write
buffer is full. Stores arriving meanwhile are merged into that copy. A
load answered from the fill read the payload of the miss register, which
did not contain those stores.
---
 MemSubSystem/MemSubsystem.cpp     | 7 ++++++-
 MemSubSystem/include/RealDcache.h | 3 +++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/MemSubSystem/MemSubsystem.cpp b/MemSubSystem/MemSubsystem.cpp
index e6c390b..437992d 100755
--- a/MemSubSystem/MemSubsystem.cpp
+++ b/MemSubSystem/MemSubsystem.cpp
@@ -884,6 +884,11 @@ void MemSubsystem::forward_pending_response_from_fill() {
   if (!fill.valid) {
     return;
   }
+  // A fill already in stage 2 has absorbed later stores; its copy is the
+  // current line, the MSHR payload is not.
+  const FILLWrite &held = dcache_.stage2_fill();
+  const auto *line =
+      held.valid && held.id == fill.id ? held.data : fill.data;
 
   for (int i = 0; i < LSU_LDU_COUNT; i++) {
     LoadResp &resp = dcache_resp_pending_.resp_ports.load_resps[i];
@@ -894,7 +899,7 @@ void MemSubsystem::forward_pending_response_from_fill() {
       continue;
     }
     const AddrFields f = decode(meta.addr);
-    resp.data = fill.data[f.word_off];
+    resp.data = line[f.word_off];
     resp.replay = ReplayType::HIT;
 #if !BSD_CONFIG
     if (ctx != nullptr) {
diff --git a/MemSubSystem/include/RealDcache.h b/MemSubSystem/include/RealDcache.h
index de1f14c..0520d85 100644
--- a/MemSubSystem/include/RealDcache.h
+++ b/MemSubSystem/include/RealDcache.h
@@ -60,6 +60,9 @@ public:
     void stage1_comb();
     void stage2_comb();
 
+    // Fill being written by stage 2 in this cycle (or held there).
+    const FILLWrite &stage2_fill() const { return s1s2_cur.fill_write; }
+
     void dump_debug_state(FILE *out) const;
 private:
     struct FillReqMerge {
-- 
2.43.0


From f4d3be599207cf56cfc02282dce628525b3ab9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:04:50 +0000
Subject: [PATCH 14/27] fix: do not report a line absent to the ICache while
 its copy may be newer than memory

The ICache looks up modified lines in the data cache and uses memory when the
lookup reports the line absent. A lookup that lost its slot to a bank conflict,
or that met a line still being fetched with merged stores, was reported absent
too. Repeat such a lookup instead.
---
 MemSubSystem/MemRouteBlock.cpp       | 11 ++++++++---
 MemSubSystem/RealDcache.cpp          | 13 ++++++++++---
 MemSubSystem/include/MemRouteBlock.h |  1 +
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/MemSubSystem/MemRouteBlock.cpp b/MemSubSystem/MemRouteBlock.cpp
index 256c7b3..810e568 100644
--- a/MemSubSystem/MemRouteBlock.cpp
+++ b/MemSubSystem/MemRouteBlock.cpp
@@ -23,6 +23,7 @@ void MemRouteBlock::comb_response() {
   *out.lsu_resp = {};
   *out.ptw_events = {};
   *out.wakeup = {};
+  icache_retry = false;
 
   memcpy(out.lsu_resp, in.dcache_resp, sizeof(DcacheLsuIO));
 
@@ -65,9 +66,10 @@ void MemRouteBlock::comb_response() {
       out.wakeup->dtlb = (owner == Owner::PTW_DTLB);
       out.wakeup->itlb = (owner == Owner::PTW_ITLB);
       out.wakeup->walk = (owner == Owner::PTW_WALK);
+    } else if (owner == Owner::ICACHE) {
+      // Neither a hit nor known to be absent: probe again in this cycle.
+      icache_retry = true;
     } else {
-      out.icache_resp->resp_valid = (owner == Owner::ICACHE);
-      out.icache_resp->resp_miss = (owner == Owner::ICACHE);
       if (in.dcache_resp->mshr_fill) {
         out.wakeup->dtlb = (owner == Owner::PTW_DTLB);
         out.wakeup->itlb = (owner == Owner::PTW_ITLB);
@@ -95,9 +97,12 @@ void MemRouteBlock::comb_request() {
 
   Owner ptw_owner = Owner::NONE;
   uint32_t ptw_addr = 0;
-  if (in.icache_req->req_valid && cur.issued_tags.owner != Owner::ICACHE) {
+  if (in.icache_req->req_valid) {
     ptw_owner = Owner::ICACHE;
     ptw_addr = in.icache_req->req_addr;
+  } else if (icache_retry) {
+    ptw_owner = Owner::ICACHE;
+    ptw_addr = cur.issued_tags.req_addr;
   } else if (in.ptw_walk_req->valid && cur.issued_tags.owner != Owner::PTW_WALK) {
     ptw_owner = Owner::PTW_WALK;
     ptw_addr = in.ptw_walk_req->addr;
diff --git a/MemSubSystem/RealDcache.cpp b/MemSubSystem/RealDcache.cpp
index 8186ada..d9f72b6 100644
--- a/MemSubSystem/RealDcache.cpp
+++ b/MemSubSystem/RealDcache.cpp
@@ -402,7 +402,10 @@ void RealDcache::stage2_comb() {
 
         if(slot.replayed){
             resp.valid  = true;
-            resp.replay = ReplayType::CONFLICT; // This load has been replayed due to MSHR full or conflict, so replay again to give chance for the MSHR state to be updated and avoid starvation when there are multiple back-to-back misses.
+            // An ICache probe that lost its lookup is asked again; CONFLICT
+            // would tell the front-end that the line is absent.
+            resp.replay = s1s2_cur.icache_req == i ? ReplayType::MSHR_HIT
+                                                   : ReplayType::CONFLICT; // This load has been replayed due to MSHR full or conflict, so replay again to give chance for the MSHR state to be updated and avoid starvation when there are multiple back-to-back misses.
             resp.req_id = slot.req_id;
             COUNT_L1D_REPLAY(ctx, slot.req_id, false, slot.perf_replay,
                              slot.bank_conflict ? L1DReplayReason::BankConflict
@@ -436,9 +439,13 @@ void RealDcache::stage2_comb() {
         else {
             if(s1s2_cur.icache_req==i){
                 // ICache coherent probes are lookup-only: report miss to the
-                // front-end route block without allocating an MSHR.
+                // front-end route block without allocating an MSHR. A line
+                // being fetched may carry merged stores memory does not have
+                // yet, so it is not absent: the probe is asked again.
                 resp.valid = true;
-                resp.replay = ReplayType::CONFLICT;
+                resp.replay = in.mshr2dcache->find_resp[i].valid
+                                  ? ReplayType::MSHR_HIT
+                                  : ReplayType::CONFLICT;
                 resp.req_id = slot.req_id;
                 continue;
             }
diff --git a/MemSubSystem/include/MemRouteBlock.h b/MemSubSystem/include/MemRouteBlock.h
index b28fa4e..f4aa0cd 100644
--- a/MemSubSystem/include/MemRouteBlock.h
+++ b/MemSubSystem/include/MemRouteBlock.h
@@ -90,6 +90,7 @@ struct MemRouteBlockState {
 class MemRouteBlock {
 public:
   MemRouteBlockState cur, nxt;
+  wire<1> icache_retry = false; // ICache probe to repeat in this cycle
   MemRouteIn in;
   MemRouteOut out;
 
-- 
2.43.0


From 929abb605aea23f9aff3d9d41c28dfa22ddc455d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:48:16 +0000
Subject: [PATCH 15/27] fix: do not forward the data of a store-conditional
 that fails or is undecided

---
 back-end/Lsu/RealLsu.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/back-end/Lsu/RealLsu.cpp b/back-end/Lsu/RealLsu.cpp
index b4f124e..4175583 100644
--- a/back-end/Lsu/RealLsu.cpp
+++ b/back-end/Lsu/RealLsu.cpp
@@ -575,6 +575,11 @@ void RealLsu::comb_stlf() {
           }
           lsu_perf::count_stlf_check(ctx);
           STLFResult stlf_result = check_stlf(entry.p_addr, entry.func3, stq_entry.paddr, stq_entry.func3);
+          if (stq_entry.suppress_write) {
+            stlf_result = STLFResult::Disjoint; // the store leaves memory alone
+          } else if (stq_entry.is_lrsc && !stq_entry.sc_pass && stlf_result == STLFResult::Overlap) {
+            stlf_result = STLFResult::Retry; // SC not decided yet
+          }
           if (stlf_result == STLFResult::Overlap) {
             if (!stq_entry.data_valid) {
               entry.load_state = LoadState::CheckStlfRetry;
-- 
2.43.0


From d6818825c1149a2edf8b84524f0c7422a1544ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:48:16 +0000
Subject: [PATCH 16/27] fix: start a device access only when the previous one
 has been answered

---
 back-end/Lsu/RealLsu.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/back-end/Lsu/RealLsu.cpp b/back-end/Lsu/RealLsu.cpp
index 4175583..9d3eb68 100644
--- a/back-end/Lsu/RealLsu.cpp
+++ b/back-end/Lsu/RealLsu.cpp
@@ -546,7 +546,7 @@ void RealLsu::comb_stlf() {
       if (entry.is_mmio) {
         if (older_store_count == 0 &&
             lsu_mmio_is_oldest_unfinished(in.rob_bcast, entry.rob_idx) &&
-            !nxt.uncached_unit.valid) {
+            !nxt.uncached_unit.valid && in.peripheral_resp->ready) {
           entry.load_state = LoadState::WaitMmioResp;
           lsu_perf::start_mem_inst(ctx, entry);
           nxt.uncached_unit.valid = true;
@@ -865,7 +865,7 @@ void RealLsu::comb_lsu2dcache_stq() {
       }
 
       if (nxt_entry.is_mmio == true) {
-        if (i == 0 && !nxt.uncached_unit.valid) {
+        if (i == 0 && !nxt.uncached_unit.valid && in.peripheral_resp->ready) {
           nxt.uncached_unit.valid = true;
           nxt.uncached_unit.is_load = false;
           nxt.uncached_unit.addr = nxt_entry.paddr;
-- 
2.43.0


From ebc76793d5b298c57d4a3b29f75022348b9163cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:48:16 +0000
Subject: [PATCH 17/27] fix: end an LR reservation when the SC or a store to
 the word commits

---
 back-end/Lsu/RealLsu.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/back-end/Lsu/RealLsu.cpp b/back-end/Lsu/RealLsu.cpp
index 9d3eb68..502004d 100644
--- a/back-end/Lsu/RealLsu.cpp
+++ b/back-end/Lsu/RealLsu.cpp
@@ -385,7 +385,6 @@ void RealLsu::comb_tlb_in_ldq() {
         ldq_entry.diag_val = ldq_entry.v_addr;
         ldq_entry.result = ldq_entry.v_addr;
         ldq_entry.load_state = LoadState::WaitFinish; // 页面错误的load进入WaitFinish状态，由后续逻辑处理异常
-        nxt.lrsc_unit.reserve_valid = false;
       } else if (resp.result == MMUResultType::MISS) {
         ldq_entry.load_state = LoadState::WaitTlbRetry;
       }
@@ -460,7 +459,6 @@ void RealLsu::comb_tlb_in_stq() {
         } else if (resp.result == MMUResultType::PAGE_FAULT) {
           stq_entry.page_fault = true;
           stq_entry.store_state = StoreState::WaitDone; // 进入页面错误状态，由后续逻辑处理异常
-          nxt.lrsc_unit.reserve_valid = false;          // 如果store发生页面错误，取消LRSC保留
         } else if (resp.result == MMUResultType::MISS) {
           stq_entry.store_state = StoreState::WaitTlbRetry; // TLB Miss的store重新进入等待TLB的状态等待重试
         }
@@ -942,7 +940,6 @@ void RealLsu::comb_lsu2exe() {
 
             stq_entry.sc_pass = sc_pass;
             stq_entry.suppress_write = !sc_pass;
-            nxt.lrsc_unit.reserve_valid = false;
 
             wb_uop.result = sc_pass ? 0 : 1;
             wb_uop.dest_preg = stq_entry.dest_preg;
@@ -1069,7 +1066,15 @@ void RealLsu::comb_stq_commit() {
         nxt_entry.store_state = StoreState::Done;
         nxt_entry.suppress_write = true;
         commit_stq_entry();
-      } else if (nxt_entry.is_lrsc && !nxt_entry.sc_pass) {
+        continue;
+      }
+      // An SC ends the reservation whether it writes or not, another store
+      // when it writes the reserved word.
+      if (nxt_entry.is_lrsc ||
+          nxt_entry.paddr == nxt.lrsc_unit.reserve_addr) {
+        nxt.lrsc_unit.reserve_valid = false;
+      }
+      if (nxt_entry.is_lrsc && !nxt_entry.sc_pass) {
         nxt_entry.suppress_write = true;
         nxt_entry.store_state = StoreState::Done;
         commit_stq_entry();
-- 
2.43.0


From 59a19de69aae9ca4b8b1ed7cf12dd9a44a987f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:04:45 +0000
Subject: [PATCH 18/27] fix: hold back a FENCE until the stores before it have
 left the store queue

The forward-progress path retired the oldest completed instruction even when
it was a FENCE that the commit gate had just held back.
---
 back-end/Rob.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/back-end/Rob.cpp b/back-end/Rob.cpp
index 2250455..5021e88 100644
--- a/back-end/Rob.cpp
+++ b/back-end/Rob.cpp
@@ -324,7 +324,7 @@ void Rob::comb_commit() {
         }
         const auto &uop = entry[i][deq_ptr].uop;
         const bool ready = rob_is_complete(uop);
-        if (ready && !rob_is_flush_inst(uop)) {
+        if (ready && !rob_is_flush_inst(uop) && !rob_is_fence_inst(uop)) {
           single_commit = true;
           single_idx = i;
           progress_single_commit = true;
-- 
2.43.0


From 1ad944a79ea475af8989d8fde5ff3ea85522027e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:04:45 +0000
Subject: [PATCH 19/27] fix: keep the faulting address when another part of the
 instruction completes later

An atomic access to a page it may read but not write reported the physical
address of its read as trap value, because the read completed after the
faulting address of the write had been recorded.
---
 back-end/Rob.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/back-end/Rob.cpp b/back-end/Rob.cpp
index 5021e88..8393470 100644
--- a/back-end/Rob.cpp
+++ b/back-end/Rob.cpp
@@ -581,7 +581,9 @@ void Rob::comb_complete() {
       for (int k = 0; k < LSU_LDU_COUNT; k++) {
         if (i == IQ_LD_PORT_BASE + k) {
           // 保存物理地址，用于 Commit 时的对齐检查
-          entry_1[bank_idx][line_idx].uop.diag_val = wb.diag_val;
+          if (!rob_is_page_fault(entry_1[bank_idx][line_idx].uop)) {
+            entry_1[bank_idx][line_idx].uop.diag_val = wb.diag_val;
+          }
 
           if (wb_has_page_fault) {
             entry_1[bank_idx][line_idx].uop.diag_val = wb.result;
@@ -598,7 +600,9 @@ void Rob::comb_complete() {
       for (int k = 0; k < LSU_STA_COUNT; k++) {
         if (i == IQ_STA_PORT_BASE + k) {
           // Keep resolved store address in ROB for commit-time policy checks.
-          entry_1[bank_idx][line_idx].uop.diag_val = wb.diag_val;
+          if (!rob_is_page_fault(entry_1[bank_idx][line_idx].uop)) {
+            entry_1[bank_idx][line_idx].uop.diag_val = wb.diag_val;
+          }
           if (wb_has_page_fault) {
             entry_1[bank_idx][line_idx].uop.diag_val = wb.result;
             entry_1[bank_idx][line_idx].uop.page_fault_load |=
-- 
2.43.0


From 0773a1840bfda8f6849cc4aa305c1b7a6c72bc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:39:32 +0000
Subject: [PATCH 20/27] fix: take simultaneous interrupts in the architectural
 order

When several interrupts for one privilege level were deliverable at once,
machine mode took software before timer before external, and supervisor mode
took timer before software. The privileged architecture orders them external,
software, timer. The reference model and the core are changed alike.
---
 back-end/Exu/Csr.cpp | 11 +++++------
 diff/ref.cpp         | 11 ++++++-----
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/back-end/Exu/Csr.cpp b/back-end/Exu/Csr.cpp
index 5be549a..629460c 100644
--- a/back-end/Exu/Csr.cpp
+++ b/back-end/Exu/Csr.cpp
@@ -176,11 +176,10 @@ void Csr::comb_exception() {
             ? 1U << 31
             : 0;
 
-    cause += irq.m_software_interrupt ? 3
-             : irq.m_timer_interrupt  ? 7
-             : (irq.m_external_interrupt ||
-                (ecall && (privilege == 3) && !medeleg_U_ecall))
-                 ? 11
+    cause += irq.m_external_interrupt   ? 11
+             : irq.m_software_interrupt ? 3
+             : irq.m_timer_interrupt    ? 7
+             : (ecall && (privilege == 3) && !medeleg_U_ecall) ? 11
              /*: illegal_exceptinn                                  ? 2*/
              : (ecall && (privilege == 0) && !medeleg_U_ecall) ? 8
              : (ecall && (privilege == 1) && !medeleg_S_ecall) ? 9
@@ -234,9 +233,9 @@ void Csr::comb_exception() {
     cause +=
         (irq.s_external_interrupt || (ecall && (privilege == 1) && medeleg_S_ecall))
             ? 9
+        : irq.s_software_interrupt                       ? 1
         : irq.s_timer_interrupt                          ? 5
         : (ecall && (privilege == 0) && medeleg_U_ecall) ? 8
-        : irq.s_software_interrupt                       ? 1
         : (page_fault_inst && medeleg_page_fault_inst)   ? 12
         : (page_fault_load && medeleg_page_fault_load)   ? 13
         : (page_fault_store && medeleg_page_fault_store) ? 15
diff --git a/diff/ref.cpp b/diff/ref.cpp
index 52fbdc9..079208c 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -361,12 +361,13 @@ void RefCpu::exception(uint32_t trap_val) {
       cause |= (1u << 31);
 
     uint32_t exception_code = 0;
-    if (M_software_interrupt)
+    if (M_external_interrupt)
+      exception_code = 11;
+    else if (M_software_interrupt)
       exception_code = 3;
     else if (M_timer_interrupt)
       exception_code = 7;
-    else if (M_external_interrupt ||
-             (ecall && privilege == 3 && !medeleg_U_ecall))
+    else if (ecall && privilege == 3 && !medeleg_U_ecall)
       exception_code = 11;
     else if (ecall && privilege == 0 && !medeleg_U_ecall)
       exception_code = 8;
@@ -422,12 +423,12 @@ void RefCpu::exception(uint32_t trap_val) {
     uint32_t exception_code = 0;
     if (S_external_interrupt || (ecall && privilege == 1 && medeleg_S_ecall))
       exception_code = 9;
+    else if (S_software_interrupt)
+      exception_code = 1;
     else if (S_timer_interrupt)
       exception_code = 5;
     else if (ecall && privilege == 0 && medeleg_U_ecall)
       exception_code = 8;
-    else if (S_software_interrupt)
-      exception_code = 1;
     else if (page_fault_inst && medeleg_page_fault_inst)
       exception_code = 12;
     else if (page_fault_load && medeleg_page_fault_load)
-- 
2.43.0


From c07c7307432e75feebe171f459bd2ff876275da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:15:01 +0000
Subject: [PATCH 21/27] fix: do not give a dropped instruction lookup's answer
 to the next one

---
 MemSubSystem/MemRouteBlock.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/MemSubSystem/MemRouteBlock.cpp b/MemSubSystem/MemRouteBlock.cpp
index 810e568..3bb7f50 100644
--- a/MemSubSystem/MemRouteBlock.cpp
+++ b/MemSubSystem/MemRouteBlock.cpp
@@ -47,7 +47,10 @@ void MemRouteBlock::comb_response() {
       ctx->perf.ptw_port_replay_count++;
     }
 #endif
-    if (replay == ReplayType::HIT) {
+    if (owner == Owner::ICACHE && in.icache_req->req_valid) {
+      // The front-end has dropped this probe and started another one, which
+      // must not take the answer of this one.
+    } else if (replay == ReplayType::HIT) {
       if (owner == Owner::ICACHE) {
         out.icache_resp->resp_valid = true;
         out.icache_resp->resp_miss = false;
-- 
2.43.0


From 2f73a935763e2b158c1c80b02ad51b876cb27ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:15:02 +0000
Subject: [PATCH 22/27] fix: fetch an instruction line again when it leaves the
 data cache meanwhile

---
 front-end/icache/icache_module.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/front-end/icache/icache_module.cpp b/front-end/icache/icache_module.cpp
index 363c3d5..5496313 100644
--- a/front-end/icache/icache_module.cpp
+++ b/front-end/icache/icache_module.cpp
@@ -1040,6 +1040,9 @@ void ICache::eval_state_machine() {
   struct DcacheProbeStep {
     bool done = false;
     bool hit = false;
+    // The line left the D-Cache while its words were being read, so the memory
+    // data may be older than the words already seen: fetch the line again.
+    bool lost = false;
     uint32_t line[ICACHE_LINE_SIZE / 4] = {0};
   };
 
@@ -1085,6 +1088,7 @@ void ICache::eval_state_machine() {
         }
       }
     }
+    step.lost = step.done && !step.hit && word_idx != 0;
     return step;
   };
 
@@ -1125,7 +1129,7 @@ void ICache::eval_state_machine() {
   };
 
   auto finish_refill = [&](const uint32_t *line_words, uint32_t replace_way,
-                           const char *debug_tag) {
+                           bool lost, const char *debug_tag) {
     state_next = IDLE;
     mem_axi_state_next = AXI_IDLE;
     if (io.regs.miss_txid_valid_r) {
@@ -1138,6 +1142,10 @@ void ICache::eval_state_machine() {
     perf_state_next.miss_penalty_start_cycle = 0;
     perf_state_next.axi_read_active = false;
     perf_state_next.axi_read_start_cycle = 0;
+    if (lost) {
+      req_ready_w = false;
+      return;
+    }
 
     if (!io.in.flush) {
       io.table_write.we = true;
@@ -1416,7 +1424,7 @@ void ICache::eval_state_machine() {
             req_ready_w = false;
           } else {
             finish_refill(dcache_step.hit ? dcache_step.line : mem_resp_data_w,
-                          replace_idx_next,
+                          replace_idx_next, dcache_step.lost,
                           dcache_step.hit ? "SWAP_DCACHE_HIT_SAME_CYCLE"
                                           : "SWAP_MEM_GNT_SAME_CYCLE");
           }
@@ -1450,7 +1458,7 @@ void ICache::eval_state_machine() {
           break;
         }
         finish_refill(dcache_step.hit ? dcache_step.line : mem_resp_data_w,
-                      replace_idx_next,
+                      replace_idx_next, dcache_step.lost,
                       dcache_step.hit ? "SWAP_DCACHE_HIT" : "SWAP_MEM_GNT");
       }
     }
@@ -1486,7 +1494,7 @@ void ICache::eval_state_machine() {
       }
       finish_refill(dcache_step.hit ? dcache_step.line
                                     : io.regs.mem_resp_data_r,
-                    io.regs.replace_idx,
+                    io.regs.replace_idx, dcache_step.lost,
                     dcache_step.hit ? "DCACHE_HIT_AFTER_MEM"
                                     : "MEM_GNT_AFTER_DCACHE_MISS");
     }
-- 
2.43.0


From a54e982bce92e4164f0c3772e67c5a3c0d27db4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:15:02 +0000
Subject: [PATCH 23/27] fix: free the read id when a dropped fetch is accepted
 and answered at once

---
 front-end/icache/icache_module.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/front-end/icache/icache_module.cpp b/front-end/icache/icache_module.cpp
index 5496313..0c51d5f 100644
--- a/front-end/icache/icache_module.cpp
+++ b/front-end/icache/icache_module.cpp
@@ -1506,8 +1506,10 @@ void ICache::eval_state_machine() {
     if (io.in.mem_req_accepted && io.regs.miss_txid_valid_r &&
         ((io.in.mem_req_accepted_id & 0xF) == (io.regs.miss_txid_r & 0xF))) {
       uint8_t txid = io.regs.miss_txid_r & 0xF;
-      io.reg_write.txid_canceled_r[txid] = true;
-      io.reg_write.txid_inflight_r[txid] = true;
+      // A response that comes with the acceptance is taken right here.
+      const bool outstanding = !io.in.mem_resp_valid || resp_id != txid;
+      io.reg_write.txid_canceled_r[txid] = outstanding;
+      io.reg_write.txid_inflight_r[txid] = outstanding;
     }
     state_next = IDLE;
     mem_axi_state_next = AXI_IDLE;
-- 
2.43.0


From 720cc75cfa0911021d1e860b1d4346713e896b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:52 +0000
Subject: [PATCH 24/27] fix: trap on undefined floating-point encodings in the
 reference model

---
 diff/ref.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index 079208c..c84e653 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -637,6 +637,9 @@ void RefCpu::RISCV() {
              opcode == number_16_opcode_fnmadd ||
              opcode == number_14_opcode_fmsub) {
     RV32Zfinx();
+    if (illegal_exception) {
+      exception(Instruction);
+    }
   } else {
     RV32IM();
   }
@@ -797,7 +800,7 @@ void RefCpu::RV32Zfinx() {
         // FMV.X.W: 在 Zfinx 中被移除 (Use standard MV instead)
         // 收到此编码应报异常
         illegal_exception = true;
-      } else if (funct3 == 1) {
+      } else if (funct3 == 1 && rs2 == 0) {
         // FCLASS.S: 必须保留！
         // 这是一个位操作指令，不产生异常，不更新 fflags
         float32_t f = to_f32(val_rs1);
@@ -854,6 +857,10 @@ void RefCpu::RV32Zfinx() {
   // state.csr[CSR_FCSR] |= softfloat_exceptionFlags;
 
 skip_flags_update:
+  // 未定义编码不写回，由调用者触发非法指令异常
+  if (illegal_exception) {
+    return;
+  }
   // 5. 写回结果
   if (write_rd && rd != 0) {
     state.gpr[rd] = i_res;
-- 
2.43.0


From e2edb7287e1ef95bba2a15f838b3267c68088956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:18 +0000
Subject: [PATCH 25/27] fix: treat undefined floating-point encodings as
 illegal instructions

---
 back-end/Idu.cpp | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/back-end/Idu.cpp b/back-end/Idu.cpp
index 5a4c1cd..cdb2f9d 100644
--- a/back-end/Idu.cpp
+++ b/back-end/Idu.cpp
@@ -12,6 +12,32 @@
 static wire<BR_TAG_WIDTH> alloc_tag[DECODE_WIDTH]; // 分配的新 Tag
 #endif
 
+// 单精度 Zfinx 已定义的 OP-FP 编码（rm=5/6 保留）
+static bool is_defined_fp(uint32_t funct7, uint32_t funct3, uint32_t rs2) {
+  bool rm_valid = funct3 != 5 && funct3 != 6;
+  switch (funct7) {
+  case 0x00: // FADD.S
+  case 0x04: // FSUB.S
+  case 0x08: // FMUL.S
+  case 0x0C: // FDIV.S
+    return rm_valid;
+  case 0x2C: // FSQRT.S
+    return rm_valid && rs2 == 0;
+  case 0x60: // FCVT.W(U).S
+  case 0x68: // FCVT.S.W(U)
+    return rm_valid && rs2 <= 1;
+  case 0x10: // FSGNJ(N/X).S
+  case 0x50: // FLE/FLT/FEQ.S
+    return funct3 <= 2;
+  case 0x14: // FMIN/FMAX.S
+    return funct3 <= 1;
+  case 0x70: // FCLASS.S
+    return funct3 == 1 && rs2 == 0;
+  default:
+    return false;
+  }
+}
+
 void Idu::init() {
   for (int i = 0; i < MAX_BR_NUM; i++) {
     tag_vec[i] = true;
@@ -507,6 +533,15 @@ void Idu::decode(DecRenIO::DecRenInst &uop, uint32_t inst) {
   }
 
   case number_12_opcode_float: {
+    if (!is_defined_fp(number_funct7_unsigned, number_funct3_unsigned,
+                       reg_b_index)) {
+      uop.dest_en = false;
+      uop.src1_en = false;
+      uop.src2_en = false;
+      uop.type = encode_inst_type(NOP);
+      uop.illegal_inst = true;
+      break;
+    }
     uop.dest_en = true;
     uop.src1_en = true;
     uop.src2_en = true;
-- 
2.43.0


From c12daf53f8d791c4f02f5df10eb1fbd7f3a47651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:51 +0000
Subject: [PATCH 26/27] fix: return the RISC-V NaN and saturation values from
 floating-point operations

---
 back-end/Exu/include/FPU.h | 36 ++++++++++++++++++++++++--------
 diff/ref.cpp               | 42 +++++++++++++++++++++++++++-----------
 2 files changed, 58 insertions(+), 20 deletions(-)

diff --git a/back-end/Exu/include/FPU.h b/back-end/Exu/include/FPU.h
index 1157f1b..897e028 100644
--- a/back-end/Exu/include/FPU.h
+++ b/back-end/Exu/include/FPU.h
@@ -41,6 +41,26 @@ protected:
     return ((v & 0x7F800000u) == 0x7F800000u) && ((v & 0x007FFFFFu) != 0);
   }
 
+  // RISC-V: 运算结果为 NaN 时返回规范 NaN
+  static inline uint32_t canonical(float32_t f) {
+    return is_nan_u32(f.v) ? 0x7fc00000u : f.v;
+  }
+
+  // RISC-V: NaN 与正溢出返回最大值，负溢出返回最小值
+  static inline uint32_t f32_to_i32_riscv(float32_t f, uint_fast8_t rm) {
+    if (is_nan_u32(f.v) || (f.v >> 31 == 0 && f.v >= 0x4f000000u)) {
+      return 0x7fffffffu;
+    }
+    return static_cast<uint32_t>(f32_to_i32(f, rm, true));
+  }
+
+  static inline uint32_t f32_to_ui32_riscv(float32_t f, uint_fast8_t rm) {
+    if (is_nan_u32(f.v)) {
+      return 0xffffffffu;
+    }
+    return (f.v >> 31) ? 0 : static_cast<uint32_t>(f32_to_ui32(f, rm, true));
+  }
+
   static inline uint32_t f32_classify(float32_t f) {
     uint32_t bits = f.v;
     uint32_t sign = (bits >> 31) & 1u;
@@ -147,9 +167,9 @@ protected:
         case FCVT_W_S: {
             uint32_t rs2_sel = inst.imm & 0x1F;
             if (rs2_sel == 0) {
-              inst.result = static_cast<uint32_t>(f32_to_i32(a, softfloat_roundingMode, true));
+              inst.result = f32_to_i32_riscv(a, softfloat_roundingMode);
             } else if (rs2_sel == 1) {
-              inst.result = f32_to_ui32(a, softfloat_roundingMode, true);
+              inst.result = f32_to_ui32_riscv(a, softfloat_roundingMode);
             } else {
               assert(0);
             }
@@ -169,17 +189,17 @@ protected:
         default:
           switch (inst.func7 >> 2) {
         case FADD:
-            inst.result = f32_add(a,b).v;
+            inst.result = canonical(f32_add(a,b));
             break;
         case FSUB:
             b.v ^= 0x80000000;
-            inst.result = f32_add(a,b).v;
+            inst.result = canonical(f32_add(a,b));
             break;
         case FMUL:
-            inst.result = f32_mul(a,b).v;
+            inst.result = canonical(f32_mul(a,b));
             break;
         case FDIV:
-            inst.result = f32_div(a,b).v;
+            inst.result = canonical(f32_div(a,b));
             break;
         default:
             switch (inst.func7) {
@@ -188,7 +208,7 @@ protected:
               if (rs2_sel != 0) {
                 assert(0);
               }
-              inst.result = f32_sqrt(a).v;
+              inst.result = canonical(f32_sqrt(a));
               break;
             }
             case FSGNJ:
@@ -239,7 +259,7 @@ protected:
         break;
     }
     default: {
-        inst.result = f32_add(a,b).v;
+        inst.result = canonical(f32_add(a,b));
         break;
     }
     }
diff --git a/diff/ref.cpp b/diff/ref.cpp
index c84e653..6055da7 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -115,6 +115,24 @@ static inline bool is_snan(uint32_t v) {
   return is_nan(v) && !((v >> 22) & 1);
 }
 
+// RISC-V: 运算结果为 NaN 时返回规范 NaN
+static inline uint32_t from_f32_canonical(float32_t f) {
+  return is_nan(f.v) ? 0x7fc00000 : f.v;
+}
+
+// RISC-V: NaN 与正溢出返回最大值，负溢出返回最小值
+static inline uint32_t f32_to_i32_riscv(uint32_t v, uint_fast8_t rm) {
+  if (is_nan(v) || (!(v >> 31) && v >= 0x4f000000))
+    return 0x7fffffff;
+  return (uint32_t)f32_to_i32(to_f32(v), rm, true);
+}
+
+static inline uint32_t f32_to_ui32_riscv(uint32_t v, uint_fast8_t rm) {
+  if (is_nan(v))
+    return 0xffffffff;
+  return (v >> 31) ? 0 : (uint32_t)f32_to_ui32(to_f32(v), rm, true);
+}
+
 // RISC-V 规范的 FMIN 实现
 uint32_t f32_min_riscv(uint32_t a, uint32_t b) {
   // 1. 处理 sNaN 异常 (Invalid Operation)
@@ -708,19 +726,19 @@ void RefCpu::RV32Zfinx() {
     switch (funct7) {
     case 0x00: // FADD.S
       f_res = f32_add(f_rs1, f_rs2);
-      i_res = from_f32(f_res);
+      i_res = from_f32_canonical(f_res);
       break;
     case 0x04: // FSUB.S
       f_res = f32_sub(f_rs1, f_rs2);
-      i_res = from_f32(f_res);
+      i_res = from_f32_canonical(f_res);
       break;
     case 0x08: // FMUL.S
       f_res = f32_mul(f_rs1, f_rs2);
-      i_res = from_f32(f_res);
+      i_res = from_f32_canonical(f_res);
       break;
     case 0x0C: // FDIV.S
       f_res = f32_div(f_rs1, f_rs2);
-      i_res = from_f32(f_res);
+      i_res = from_f32_canonical(f_res);
       break;
     case 0x2C: // FSQRT.S (rs2 必须为 0)
       if (rs2 != 0) {
@@ -728,7 +746,7 @@ void RefCpu::RV32Zfinx() {
         return;
       }
       f_res = f32_sqrt(f_rs1);
-      i_res = from_f32(f_res);
+      i_res = from_f32_canonical(f_res);
       break;
 
     // 注入符号 (FSGNJ) - 纯位操作，不触发异常
@@ -769,9 +787,9 @@ void RefCpu::RV32Zfinx() {
     // 转换 (Convert)
     case 0x60: // FCVT.W.S (Float to Int32)
       if (rs2 == 0)
-        i_res = (uint32_t)f32_to_i32(f_rs1, softfloat_roundingMode, true);
+        i_res = f32_to_i32_riscv(val_rs1, softfloat_roundingMode);
       else if (rs2 == 1)
-        i_res = f32_to_ui32(f_rs1, softfloat_roundingMode, true);
+        i_res = f32_to_ui32_riscv(val_rs1, softfloat_roundingMode);
       else
         illegal_exception = true;
       break;
@@ -785,7 +803,7 @@ void RefCpu::RV32Zfinx() {
         illegal_exception = true;
         return;
       }
-      i_res = from_f32(f_res);
+      i_res = from_f32_canonical(f_res);
       break;
 
       // Zfinx 特殊说明：
@@ -819,7 +837,7 @@ void RefCpu::RV32Zfinx() {
   // 结果 = (rs1 * rs2) + rs3
   case 0x43: // FMADD.S
     f_res = f32_mulAdd(f_rs1, f_rs2, f_rs3);
-    i_res = from_f32(f_res);
+    i_res = from_f32_canonical(f_res);
     break;
   case 0x47: // FMSUB.S: (rs1 * rs2) - rs3
     // SoftFloat 的 mulAdd 定义通常是 a*b + c。
@@ -829,7 +847,7 @@ void RefCpu::RV32Zfinx() {
     {
       float32_t f_neg_rs3 = to_f32(val_rs3 ^ 0x80000000);
       f_res = f32_mulAdd(f_rs1, f_rs2, f_neg_rs3);
-      i_res = from_f32(f_res);
+      i_res = from_f32_canonical(f_res);
     }
     break;
   case 0x4B: // FNMSUB.S: -(rs1 * rs2) + rs3
@@ -838,14 +856,14 @@ void RefCpu::RV32Zfinx() {
     // SoftFloat 可能并没有直接对应指令，可能需要操作 rs1 或 rs2 符号
     float32_t f_neg_rs1 = to_f32(val_rs1 ^ 0x80000000);
     f_res = f32_mulAdd(f_neg_rs1, f_rs2, f_rs3);
-    i_res = from_f32(f_res);
+    i_res = from_f32_canonical(f_res);
   } break;
   case 0x4F: // FNMADD.S: -(rs1 * rs2) - rs3
   {
     float32_t f_neg_rs1 = to_f32(val_rs1 ^ 0x80000000);
     float32_t f_neg_rs3 = to_f32(val_rs3 ^ 0x80000000);
     f_res = f32_mulAdd(f_neg_rs1, f_rs2, f_neg_rs3);
-    i_res = from_f32(f_res);
+    i_res = from_f32_canonical(f_res);
   } break;
 
   default:
-- 
2.43.0


From 0ad229f824ea8641ca0c332647fbc133eda1a07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:35 +0000
Subject: [PATCH 27/27] fix: do not let an interrupt squash a device read that
 was already sent

An interrupt could flush the oldest load after its request had reached the
device. The load then ran again on return and the device saw the read twice.
The reorder buffer now holds interrupts back until such a load has retired.
---
 back-end/Lsu/RealLsu.cpp |  4 ++++
 back-end/Rob.cpp         | 21 ++++++++++++++++++++-
 back-end/include/IO.h    |  5 +++++
 back-end/include/Rob.h   |  5 +++++
 4 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/back-end/Lsu/RealLsu.cpp b/back-end/Lsu/RealLsu.cpp
index 502004d..7e20764 100644
--- a/back-end/Lsu/RealLsu.cpp
+++ b/back-end/Lsu/RealLsu.cpp
@@ -209,6 +209,10 @@ void RealLsu::comb_lsu2rob() {
   *out.lsu2rob = {};
 
   out.lsu2rob->committed_store_pending = cur.stq_commit_count != 0;
+  if (cur.uncached_unit.valid && cur.uncached_unit.is_load) {
+    out.lsu2rob->device_read_valid = true;
+    out.lsu2rob->device_read_rob_idx = cur.ldq[cur.uncached_unit.idx].rob_idx;
+  }
   uint64_t miss_mask = lsu_perf::load_miss_mask(cur);
   out.lsu2rob->tma.miss_mask = miss_mask;
 }
diff --git a/back-end/Rob.cpp b/back-end/Rob.cpp
index 8393470..ca2a8b6 100644
--- a/back-end/Rob.cpp
+++ b/back-end/Rob.cpp
@@ -67,6 +67,8 @@ void Rob::init() {
   enq_ptr = enq_ptr_1 = 0;
   enq_flag = enq_flag_1 = false;
   deq_flag = deq_flag_1 = false;
+  device_read_sent = device_read_sent_1 = false;
+  device_read_idx = device_read_idx_1 = 0;
   stall_cycle = 0;
 
   for (int i = 0; i < ROB_LINE_NUM; i++) {
@@ -91,6 +93,8 @@ void Rob::comb_begin() {
   deq_ptr_1 = deq_ptr;
   enq_flag_1 = enq_flag;
   deq_flag_1 = deq_flag;
+  device_read_sent_1 = device_read_sent;
+  device_read_idx_1 = device_read_idx;
 }
 
 // 功能：生成 ROB 对 Dispatch/CSR 的就绪与停顿信息，并标注队头阻塞类型。
@@ -271,8 +275,21 @@ void Rob::comb_commit() {
     // std::fflush(stderr);
   };
 
+  // 设备读已发出后不能再被中断冲刷，否则返回后会重复访问设备：
+  // 中断等到该指令退休后再响应。
+  if (in.lsu2rob != nullptr && in.lsu2rob->device_read_valid) {
+    device_read_sent_1 = true;
+    device_read_idx_1 = in.lsu2rob->device_read_rob_idx;
+  }
+  if (device_read_sent_1 &&
+      !entry[get_rob_bank(device_read_idx_1)][get_rob_line(device_read_idx_1)]
+           .valid) {
+    device_read_sent_1 = false;
+  }
+
   if (!in.dec_bcast->mispred) {
-    const bool interrupt_pending = in.csr2rob->interrupt_req;
+    const bool interrupt_pending =
+        in.csr2rob->interrupt_req && !device_read_sent_1;
     for (int i = 0; i < ROB_BANK_NUM; i++) {
       if ((entry[i][deq_ptr].valid &&
            (rob_is_flush_inst(entry[i][deq_ptr].uop) ||
@@ -742,4 +759,6 @@ void Rob::seq() {
   enq_ptr = enq_ptr_1;
   enq_flag = enq_flag_1;
   deq_flag = deq_flag_1;
+  device_read_sent = device_read_sent_1;
+  device_read_idx = device_read_idx_1;
 }
diff --git a/back-end/include/IO.h b/back-end/include/IO.h
index a336777..64a88c6 100644
--- a/back-end/include/IO.h
+++ b/back-end/include/IO.h
@@ -1416,10 +1416,15 @@ struct LsuRobIO {
     std::bitset<ROB_NUM> miss_mask;
   } tma;
   wire<1> committed_store_pending;
+  // a device read has been sent for this instruction
+  wire<1> device_read_valid;
+  wire<ROB_IDX_WIDTH> device_read_rob_idx;
 
   LsuRobIO() {
     tma.miss_mask.reset();
     committed_store_pending = 0;
+    device_read_valid = 0;
+    device_read_rob_idx = 0;
   }
 };
 
diff --git a/back-end/include/Rob.h b/back-end/include/Rob.h
index 0a5d2fc..05cec81 100644
--- a/back-end/include/Rob.h
+++ b/back-end/include/Rob.h
@@ -152,12 +152,17 @@ public:
   reg<clog2(ROB_LINE_NUM)> deq_ptr;
   reg<1> enq_flag;
   reg<1> deq_flag;
+  // device read sent but not retired: interrupts wait for it
+  reg<1> device_read_sent = 0;
+  reg<ROB_IDX_WIDTH> device_read_idx = 0;
 
   RobStoredEntry entry_1[ROB_BANK_NUM][ROB_LINE_NUM];
   wire<clog2(ROB_LINE_NUM)> enq_ptr_1;
   wire<clog2(ROB_LINE_NUM)> deq_ptr_1;
   wire<1> enq_flag_1;
   wire<1> deq_flag_1;
+  wire<1> device_read_sent_1 = 0;
+  wire<ROB_IDX_WIDTH> device_read_idx_1 = 0;
 
 private:
   int stall_cycle = 0;
-- 
2.43.0

