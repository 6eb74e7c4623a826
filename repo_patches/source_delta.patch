From f38d0836a9a50810efa26b78c363ae8bc40ae5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:47 +0000
Subject: [PATCH 001/119] fix: validate_address() lets through the address just
 above the memory

---
 src/core/sim.src/mem.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 92cdbd0..5ca8218 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -179,7 +179,7 @@ cl_memory::validate_address(t_addr addr)
 {
   while (addr < start_address)
     addr+= size;
-  if (addr > start_address+size)
+  if (addr >= start_address+size)
     {
       addr-= start_address;
       addr%= size;
-- 
2.43.0


From 7af87eff76e3ad23baf0699975b5101b27af20bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:47 +0000
Subject: [PATCH 002/119] fix: s51 MOVC does not wrap around at the end of code
 memory

---
 src/sims/s51.src/mov.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/s51.src/mov.cc b/src/sims/s51.src/mov.cc
index 19c912e..a6796f1 100644
--- a/src/sims/s51.src/mov.cc
+++ b/src/sims/s51.src/mov.cc
@@ -123,7 +123,7 @@ cl_51core::instruction_78/*inst_mov_rn_Sdata*/(t_mem/*uchar*/ code)
 int
 cl_51core::instruction_83/*inst_movc_a_Sa_pc*/(t_mem/*uchar*/ code)
 {
-  acc->write(rom->read(PC + acc->read()));
+  acc->write(rom->read(rom->validate_address(PC + acc->read())));
   tick(1);
   vc.rd++;
   //vc.wr++;
@@ -222,7 +222,7 @@ cl_51core::instruction_93/*inst_movc_a_Sa_dptr*/(t_mem/*uchar*/ code)
 {
   u16_t h= /*sfr*/dptr->read(/*DPH*/1);
   u16_t l= /*sfr*/dptr->read(/*DPL*/0);
-  acc->write(rom->read(h*256 + l +  acc->read()));
+  acc->write(rom->read(rom->validate_address(h*256 + l +  acc->read())));
   tick(1);
   vc.rd+= 3;//4;
   //vc.wr++;
-- 
2.43.0


From 626cecf4132f19e075d15f5135bcdb33b479c8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:27 +0000
Subject: [PATCH 003/119] fix: s51 writing PSW can make P differ from parity of
 ACC

---
 src/sims/s51.src/uc51.cc  | 12 +++++++++++-
 src/sims/s51.src/uc51cl.h |  2 +-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/sims/s51.src/uc51.cc b/src/sims/s51.src/uc51.cc
index cdab683..b481313 100644
--- a/src/sims/s51.src/uc51.cc
+++ b/src/sims/s51.src/uc51.cc
@@ -1990,7 +1990,8 @@ cl_uc51_cpu::init(void)
     {
       fprintf(stderr, "No SFR to register %s[%d] into\n", id_string, id);
     }
-  cell_psw= sfr->get_cell(PSW);//use_cell(sfr, PSW);
+  cell_psw= register_cell(sfr, PSW);
+  cell_p  = register_cell(bas, PSW+0);
   cell_acc= register_cell(sfr, ACC);
   cell_sp= register_cell(sfr, SP);
   for (i= 0; i < 8; i++)
@@ -2055,6 +2056,15 @@ cl_uc51_cpu::write(class cl_memory_cell *cell, t_mem *val)
       if (*val > uc->sp_most)
 	uc->sp_most= *val;
     }
+  else if (cell == cell_psw)
+    {
+      // P always shows parity of ACC
+      *val= (*val & ~bmP) | ptab51[cell_acc->get()];
+    }
+  else if (cell == cell_p)
+    {
+      *val= ptab51[cell_acc->get()] & bmP;
+    }
   else // ACC and its bits
     {
       uchar uc, n= *val;
diff --git a/src/sims/s51.src/uc51cl.h b/src/sims/s51.src/uc51cl.h
index de60f77..22044c9 100644
--- a/src/sims/s51.src/uc51cl.h
+++ b/src/sims/s51.src/uc51cl.h
@@ -296,7 +296,7 @@ enum uc51cpu_cfg {
 class cl_uc51_cpu: public cl_hw
 {
 protected:
-  class cl_memory_cell *cell_acc, *cell_sp, *cell_psw;
+  class cl_memory_cell *cell_acc, *cell_sp, *cell_psw, *cell_p;
   class cl_memory_cell *acc_bits[8];
 public:
   chars movxri_expr;
-- 
2.43.0


From 599dc1ccc4c4c0abddbdfa814141bdbfdc6b8f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 004/119] fix: z80 CB rotates and shifts take P/V from the
 accumulator instead of the result

---
 src/sims/z80.src/z80mac.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/sims/z80.src/z80mac.h b/src/sims/z80.src/z80mac.h
index 93696ed..b14fa5c 100644
--- a/src/sims/z80.src/z80mac.h
+++ b/src/sims/z80.src/z80mac.h
@@ -186,7 +186,7 @@
     }							    \
     if (reg == 0)       regs.raf.F |= BIT_Z;		    \
     if (reg & 0x80)     regs.raf.F |= BIT_S;		    \
-    if (parity(regs.raf.A)) regs.raf.F |= BIT_P;	    \
+    if (parity(reg)) regs.raf.F |= BIT_P;	    \
     xy(reg);						    \
   }
 
@@ -201,7 +201,7 @@
       reg = (reg >> 1);					    \
     if (reg == 0)       regs.raf.F |= BIT_Z;		    \
     if (reg & 0x80)     regs.raf.F |= BIT_S;		    \
-    if (parity(regs.raf.A)) regs.raf.F |= BIT_P;	    \
+    if (parity(reg)) regs.raf.F |= BIT_P;	    \
     xy(reg);						    \
   }
 
@@ -220,7 +220,7 @@
     }							    \
     if (reg == 0)       regs.raf.F |= BIT_Z;		    \
     if (reg & 0x80)     regs.raf.F |= BIT_S;		    \
-    if (parity(regs.raf.A)) regs.raf.F |= BIT_P;	    \
+    if (parity(reg)) regs.raf.F |= BIT_P;	    \
     xy(reg);						    \
   }
 
@@ -234,7 +234,7 @@
       reg = (reg << 1);					    \
     if (reg == 0)       regs.raf.F |= BIT_Z;		    \
     if (reg & 0x80)     regs.raf.F |= BIT_S;		    \
-    if (parity(regs.raf.A)) regs.raf.F |= BIT_P;	    \
+    if (parity(reg)) regs.raf.F |= BIT_P;	    \
     xy(reg);						    \
 }
 
@@ -246,7 +246,7 @@
     reg = (reg << 1);					    \
     if (reg == 0)       regs.raf.F |= BIT_Z;		    \
     if (reg & 0x80)     regs.raf.F |= BIT_S;		    \
-    if (parity(regs.raf.A)) regs.raf.F |= BIT_P;	    \
+    if (parity(reg)) regs.raf.F |= BIT_P;	    \
     xy(reg);						    \
   }
 
@@ -264,7 +264,7 @@
     }							    \
     if (reg == 0)       regs.raf.F |= BIT_Z;		    \
     if (reg & 0x80)     regs.raf.F |= BIT_S;		    \
-    if (parity(regs.raf.A)) regs.raf.F |= BIT_P;	    \
+    if (parity(reg)) regs.raf.F |= BIT_P;	    \
     xy(reg);						    \
   }
 
@@ -276,7 +276,7 @@
     reg = (reg >> 1);					    \
     if (reg == 0)       regs.raf.F |= BIT_Z;		    \
     if (reg & 0x80)     regs.raf.F |= BIT_S;		    \
-    if (parity(regs.raf.A)) regs.raf.F |= BIT_P;	    \
+    if (parity(reg)) regs.raf.F |= BIT_P;	    \
     xy(reg);						    \
   }
 
@@ -289,7 +289,7 @@
     reg = (reg << 1) | 1;				\
     if (reg == 0) regs.raf.F |= BIT_Z;			\
     if (reg & 0x80) regs.raf.F |= BIT_S;		\
-    if (parity(regs.raf.A)) regs.raf.F |= BIT_P;	\
+    if (parity(reg)) regs.raf.F |= BIT_P;	\
     xy(reg);						\
   }
 
-- 
2.43.0


From 3ae9d0a4bb2867d08c61651cc6aaf51f145c79c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 005/119] fix: z80 ADC/SBC lose the half carry when the
 operand's low digits are all ones and carry is set

---
 src/sims/z80.src/z80mac.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/sims/z80.src/z80mac.h b/src/sims/z80.src/z80mac.h
index b14fa5c..45e9df1 100644
--- a/src/sims/z80.src/z80mac.h
+++ b/src/sims/z80.src/z80mac.h
@@ -57,10 +57,11 @@
     unsigned int accu = (unsigned int)regs.raf.A;			\
     unsigned int oper = (unsigned int)(br);				\
     signed int res = (signed char)regs.raf.A + (signed char)(br);	\
-    if (regs.raf.F & BIT_C) { ++oper; ++res; }				\
+    unsigned int cy = (regs.raf.F & BIT_C)?1:0;				\
+    oper += cy; res += cy;						\
     regs.raf.F &= ~(BIT_ALL);  /* clear these */			\
     regs.raf.F &= ~BIT_N;      /* addition */				\
-    if ((accu & 0x0F) + (oper & 0x0F) > 0x0F)  regs.raf.F |= BIT_A;	\
+    if ((accu & 0x0F) + ((oper-cy) & 0x0F) + cy > 0x0F)  regs.raf.F |= BIT_A;	\
     if ((res < -128) || (res > 127))           regs.raf.F |= BIT_P;	\
     if (accu + oper > 0xFF)                    regs.raf.F |= BIT_C;	\
     regs.raf.A += oper;							\
@@ -96,10 +97,11 @@
     unsigned int accu = (unsigned int)regs.HL;				\
     unsigned int oper = (unsigned int)(reg);				\
     signed int res = (signed short)regs.HL + (signed short)(reg);	\
-    if (regs.raf.F & BIT_C) { ++oper; ++res; }				\
+    unsigned int cy = (regs.raf.F & BIT_C)?1:0;				\
+    oper += cy; res += cy;						\
     regs.raf.F &= ~(BIT_ALL);        /* clear these */			\
     regs.raf.F &= ~BIT_N;            /* addition */			\
-    if ((accu & 0x0FFF) + (oper & 0x0FFF) > 0x0FFF) regs.raf.F |= BIT_A; \
+    if ((accu & 0x0FFF) + ((oper-cy) & 0x0FFF) + cy > 0x0FFF) regs.raf.F |= BIT_A; \
     if ((res < -32768) || (res > 32767))            regs.raf.F |= BIT_P; \
     if (accu + oper > 0xFFFF)                       regs.raf.F |= BIT_C; \
     regs.HL += oper;							\
@@ -128,10 +130,11 @@
     unsigned int accu = (unsigned int)regs.raf.A;			\
     unsigned int oper = (unsigned int)(br);				\
     signed int res = (signed char)regs.raf.A - (signed char)(br);	\
-    if (regs.raf.F & BIT_C) { ++oper; --res; }				\
+    unsigned int cy = (regs.raf.F & BIT_C)?1:0;				\
+    oper += cy; res -= cy;						\
     regs.raf.F &= ~(BIT_ALL); /* clear these */				\
     regs.raf.F |= BIT_N;      /* not addition */			\
-    if ((accu & 0x0F) < (oper & 0x0F))      regs.raf.F |= BIT_A;	\
+    if ((accu & 0x0F) < ((oper-cy) & 0x0F) + cy)      regs.raf.F |= BIT_A;	\
     if ((res < -128) || (res > 127))        regs.raf.F |= BIT_P;	\
     if (accu < oper)                        regs.raf.F |= BIT_C;	\
     regs.raf.A -= oper;							\
@@ -145,10 +148,11 @@
     unsigned int accu = (unsigned int)regs.HL;				\
     unsigned int oper = (unsigned int)reg;				\
     signed int res = (signed short)regs.HL - (signed short)(reg);	\
-    if (regs.raf.F & BIT_C) { ++oper; --res; }				\
+    unsigned int cy = (regs.raf.F & BIT_C)?1:0;				\
+    oper += cy; res -= cy;						\
     regs.raf.F &= ~(BIT_ALL); /* clear these */				\
     regs.raf.F |= BIT_N;      /* not addition */			\
-    if ((accu & 0x0FFF) < (oper & 0x0FFF))  regs.raf.F |= BIT_A;	\
+    if ((accu & 0x0FFF) < ((oper-cy) & 0x0FFF) + cy)  regs.raf.F |= BIT_A;	\
     if ((res < -32768) || (res > 32767))    regs.raf.F |= BIT_P;	\
     if (accu < oper)                        regs.raf.F |= BIT_C;	\
     regs.HL -= oper;							\
-- 
2.43.0


From 4ba40448e34847a2bddfeccfd57b1e2ea2b1ee73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 006/119] fix: z80 OUTI and OTIR write to the port selected by
 B instead of C

---
 src/sims/z80.src/inst_ed.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/z80.src/inst_ed.cc b/src/sims/z80.src/inst_ed.cc
index 2310ff3..9841432 100644
--- a/src/sims/z80.src/inst_ed.cc
+++ b/src/sims/z80.src/inst_ed.cc
@@ -451,7 +451,7 @@ int  cl_z80::inst_ed_(t_mem code)
 
     case 0xA3: // OUTI
       regs.bc.h--;
-      outputs->write((type->type==CPU_Z80N)?regs.BC:regs.bc.h, this->get1(regs.HL));
+      outputs->write((type->type==CPU_Z80N)?regs.BC:regs.bc.l, this->get1(regs.HL));
       vc.wr++;
       vc.rd++;
       SET_Z(regs.bc.h);
@@ -597,7 +597,7 @@ int  cl_z80::inst_ed_(t_mem code)
     case 0xB3: // OTIR
       //do {
         regs.bc.h--;
-        outputs->write((type->type==CPU_Z80N)?regs.BC:regs.bc.h, this->get1(regs.HL));
+        outputs->write((type->type==CPU_Z80N)?regs.BC:regs.bc.l, this->get1(regs.HL));
         vc.wr++;
         vc.rd++;
         SET_Z(regs.bc.h);
-- 
2.43.0


From 571493ad28ba04594430fdd85c751a4fbfa55997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:01 +0000
Subject: [PATCH 007/119] fix: z80 T state counts of INC/DEC (HL), BIT b,(HL)
 and OUT (C),E

---
 src/sims/z80.src/glob.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sims/z80.src/glob.cc b/src/sims/z80.src/glob.cc
index 35a8d3f..766535a 100644
--- a/src/sims/z80.src/glob.cc
+++ b/src/sims/z80.src/glob.cc
@@ -1318,7 +1318,7 @@ u16_t z80_ttab_00[256]= {
   /*0*/        4, 10,  7,  6,       4,   4,  7,  4,      4, 11,  7,  6,       4,  4,  7,  4,
     /*1*/T(13,8), 10,  7,  6,       4,   4,  7,  4,     12, 11,  7,  6,       4,  4,  7,  4,
     /*2*/T(12,7), 10, 16,  6,       4,   4,  7,  4,T(12,7), 11, 16,  6,       4,  4,  7,  4,
-    /*3*/T(12,7), 10, 13,  6,       7,   7, 10,  4,T(12,7), 11, 13,  6,       4,  4,  7,  4,
+    /*3*/T(12,7), 10, 13,  6,      11,  11, 10,  4,T(12,7), 11, 13,  6,       4,  4,  7,  4,
     /*4*/      4,  4,  4,  4,       4,   4,  7,  4,      4,  4,  4,  4,       4,  4,  7,  4,
     /*5*/      4,  4,  4,  4,       4,   4,  7,  4,      4,  4,  4,  4,       4,  4,  7,  4,
     /*6*/      4,  4,  4,  4,       4,   4,  7,  4,      4,  4,  4,  4,       4,  4,  7,  4,
@@ -1342,7 +1342,7 @@ u16_t z80_ttab_ed[256]= {
   /*2*/  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,
   /*3*/  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,
   /*4*/ 12, 12, 15, 20,  8, 14,  8,  9, 12, 12, 15, 20,  0, 14,  0,  9,
-  /*5*/ 12, 12, 15, 20,  0,  0,  8,  9, 12,  1, 15, 20,  0,  0,  8,  9,
+  /*5*/ 12, 12, 15, 20,  0,  0,  8,  9, 12, 12, 15, 20,  0,  0,  8,  9,
   /*6*/ 12, 12, 15, 20,  0,  0,  0, 18, 12, 12, 15, 20,  0,  0,  0, 18,
   /*7*/ 12, 12, 15, 20,  0,  0,  0,  0, 12, 12, 15, 20,  0,  0,  0,  0,
   /*     0   1   2   3   4   5   6   7   8   9   a   b   c   d   e   f */
@@ -1368,10 +1368,10 @@ u16_t z80_ttab_cb[256]= {
   /*1*/ 8, 8, 8, 8, 8, 8, 15, 8, 8, 8, 8, 8, 8, 8, 15, 8,
   /*2*/ 8, 8, 8, 8, 8, 8, 15, 8, 8, 8, 8, 8, 8, 8, 15, 8,
   /*3*/ 8, 8, 8, 8, 8, 8, 15, 8, 8, 8, 8, 8, 8, 8, 15, 8,
-  /*4*/ 8, 8, 8, 8, 8, 8, 15, 8, 8, 8, 8, 8, 8, 8, 15, 8,
-  /*5*/ 8, 8, 8, 8, 8, 8, 15, 8, 8, 8, 8, 8, 8, 8, 15, 8,
-  /*6*/ 8, 8, 8, 8, 8, 8, 15, 8, 8, 8, 8, 8, 8, 8, 15, 8,
-  /*7*/ 8, 8, 8, 8, 8, 8, 15, 8, 8, 8, 8, 8, 8, 8, 15, 8,
+  /*4*/ 8, 8, 8, 8, 8, 8, 12, 8, 8, 8, 8, 8, 8, 8, 12, 8,
+  /*5*/ 8, 8, 8, 8, 8, 8, 12, 8, 8, 8, 8, 8, 8, 8, 12, 8,
+  /*6*/ 8, 8, 8, 8, 8, 8, 12, 8, 8, 8, 8, 8, 8, 8, 12, 8,
+  /*7*/ 8, 8, 8, 8, 8, 8, 12, 8, 8, 8, 8, 8, 8, 8, 12, 8,
   /*    0  1  2  3  4  5   6  7  8  9  a  b  c  d   e  f */
   /*8*/ 8, 8, 8, 8, 8, 8, 15, 8, 8, 8, 8, 8, 8, 8, 15, 8,
   /*9*/ 8, 8, 8, 8, 8, 8, 15, 8, 8, 8, 8, 8, 8, 8, 15, 8,
-- 
2.43.0


From 05774f05cf4112487ed42ad634a7bdebfbc743ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:18 +0000
Subject: [PATCH 008/119] fix: z80 word accesses, relative jumps and clock
 lookup do not wrap around at the end of memory

---
 src/sims/z80.src/gb80.cc |  6 +++---
 src/sims/z80.src/inst.cc | 12 ++++++------
 src/sims/z80.src/z80.cc  | 16 ++++++++--------
 3 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/sims/z80.src/gb80.cc b/src/sims/z80.src/gb80.cc
index 5e112c3..385aff3 100644
--- a/src/sims/z80.src/gb80.cc
+++ b/src/sims/z80.src/gb80.cc
@@ -239,7 +239,7 @@ void
 cl_gb80::store2(u16_t addr, u16_t val)
 {
   rom->write(addr, val);
-  rom->write(addr+1, val>>8);
+  rom->write((u16_t)(addr+1), val>>8);
 }
 
 u8_t
@@ -252,7 +252,7 @@ u16_t
 cl_gb80::get2(u16_t addr)
 {
   u8_t l= rom->read(addr);
-  u8_t h= rom->read(addr+1);
+  u8_t h= rom->read((u16_t)(addr+1));
   return (h<<8)|l;
 }
 
@@ -711,7 +711,7 @@ cl_gb80::tickt(t_mem code)
   switch (code)
     {
     case 0xcb:
-      c2= rom->read(instPC+1);
+      c2= rom->read((instPC+1) & 0xffff);
       t= gb_ttab_cb[c2];
       break;
     default:
diff --git a/src/sims/z80.src/inst.cc b/src/sims/z80.src/inst.cc
index 5a20dd8..a2889ac 100644
--- a/src/sims/z80.src/inst.cc
+++ b/src/sims/z80.src/inst.cc
@@ -730,7 +730,7 @@ cl_z80::inst_djnz(t_mem code)
   j = fetch1();
   //tick(7);
   if ((--regs.bc.h != 0)) {
-    PC += j;
+    PC= (PC + j) & 0xffff;
     //tick(5);
     cond_true= true;
   } else {
@@ -771,33 +771,33 @@ cl_z80::inst_jr(t_mem code)
   //tick(6);
   switch(code) {
     case 0x18: // JR dd
-      PC += j;
+      PC= (PC + j) & 0xffff;
       //tick(5);
     break;
     case 0x20: // JR NZ,dd
       if (!(regs.raf.F & BIT_Z)) {
-        PC += j;
+        PC= (PC + j) & 0xffff;
 	cond_true= true;
         //tick(5);
       }
     break;
     case 0x28: // JR Z,dd
       if ((regs.raf.F & BIT_Z)) {
-        PC += j;
+        PC= (PC + j) & 0xffff;
 	cond_true= true;
         //tick(5);
       }
     break;
     case 0x30: // JR NC,dd
       if (!(regs.raf.F & BIT_C)) {
-        PC += j;
+        PC= (PC + j) & 0xffff;
 	cond_true= true;
         //tick(5);
       }
     break;
     case 0x38: // JR C,dd
       if ((regs.raf.F & BIT_C)) {
-        PC += j;
+        PC= (PC + j) & 0xffff;
 	cond_true= true;
         //tick(5);
       }
diff --git a/src/sims/z80.src/z80.cc b/src/sims/z80.src/z80.cc
index 3d186e5..775a753 100644
--- a/src/sims/z80.src/z80.cc
+++ b/src/sims/z80.src/z80.cc
@@ -847,31 +847,31 @@ cl_z80::tickt(t_mem code)
   switch (code)
     {
     case 0xdd:
-      c2= rom->read(instPC+1);
+      c2= rom->read((instPC+1) & 0xffff);
       if (c2 == 0xcb)
 	{
-	  c4= rom->read(instPC+3);
+	  c4= rom->read((instPC+3) & 0xffff);
 	  t= ttab_ddcb[c4];
 	  break;
 	}
       t= ttab_dd[c2];
       break;
     case 0xfd:
-      c2= rom->read(instPC+1);
+      c2= rom->read((instPC+1) & 0xffff);
       if (c2==0xcb)
 	{
-	  c4= rom->read(instPC+3);
+	  c4= rom->read((instPC+3) & 0xffff);
 	  t= ttab_fdcb[c4];
 	  break;
 	}
       t= ttab_fd[c2];
       break;
     case 0xcb:
-      c2= rom->read(instPC+1);
+      c2= rom->read((instPC+1) & 0xffff);
       t= ttab_cb[c2];
       break;
     case 0xed:
-      c2= rom->read(instPC+1);
+      c2= rom->read((instPC+1) & 0xffff);
       t= ttab_ed[c2];
       break;
     default:
@@ -1111,7 +1111,7 @@ void cl_z80::store1( u16_t addr, t_mem val ) {
 
 void cl_z80::store2( u16_t addr, u16_t val ) {
   ram->write(addr,   val & 0xff);
-  ram->write(addr+1, (val >> 8) & 0xff);
+  ram->write((u16_t)(addr+1), (val >> 8) & 0xff);
 }
 
 u8_t  cl_z80::get1( u16_t addr ) {
@@ -1122,7 +1122,7 @@ u16_t  cl_z80::get2( u16_t addr ) {
   u16_t  l, h;
   
   l = ram->read(addr  );
-  h = ram->read(addr+1);
+  h = ram->read((u16_t)(addr+1));
   
   return (h << 8) | l;
 }
-- 
2.43.0


From c33ff8a4d327caf5683037ec3cdbb0b4107095ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:58 +0000
Subject: [PATCH 009/119] fix: z80 RETN and RETI clear IFF2

---
 src/sims/z80.src/inst_ed.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/sims/z80.src/inst_ed.cc b/src/sims/z80.src/inst_ed.cc
index 9841432..1d3506f 100644
--- a/src/sims/z80.src/inst_ed.cc
+++ b/src/sims/z80.src/inst_ed.cc
@@ -125,7 +125,6 @@ int  cl_z80::inst_ed_(t_mem code)
     case 0x45: // RETN (return from non-maskable interrupt)
       pop2(PC);
       IFF1= IFF2;
-      IFF2= false;
       vc.rd+= 2;      
       //tick(13);
       return(resGO);
@@ -176,7 +175,6 @@ int  cl_z80::inst_ed_(t_mem code)
     case 0x4D: // RETI (return from interrupt)
       pop2(PC);
       IFF1= IFF2;
-      IFF2= false;
       vc.rd+= 2;
       //tick(13);
       return(resGO);
-- 
2.43.0


From b094927a18faa97d2820683ac706a8da29b0ca7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:58 +0000
Subject: [PATCH 010/119] fix: z80 IN r,(C) does not set S and Z and does not
 clear H

---
 src/sims/z80.src/inst_ed.cc | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/sims/z80.src/inst_ed.cc b/src/sims/z80.src/inst_ed.cc
index 1d3506f..16d6706 100644
--- a/src/sims/z80.src/inst_ed.cc
+++ b/src/sims/z80.src/inst_ed.cc
@@ -86,7 +86,9 @@ int  cl_z80::inst_ed_(t_mem code)
     {
     case 0x40: // IN B,(C)
       regs.bc.h= inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l);
-      regs.raf.F &= ~(BIT_N | BIT_P);
+      regs.raf.F &= ~(BIT_N | BIT_P | BIT_A);
+      SET_S(regs.bc.h);
+      SET_Z(regs.bc.h);
       if (parity(regs.bc.h)) regs.raf.F |= BIT_P;
       vc.rd++;
       //tick(11);
@@ -142,7 +144,9 @@ int  cl_z80::inst_ed_(t_mem code)
 
     case 0x48: // IN C,(C)
       regs.bc.l= inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l);
-      regs.raf.F &= ~(BIT_N | BIT_P);
+      regs.raf.F &= ~(BIT_N | BIT_P | BIT_A);
+      SET_S(regs.bc.l);
+      SET_Z(regs.bc.l);
       if (parity(regs.bc.l)) regs.raf.F |= BIT_P;
       vc.rd++;
       //tick(11);
@@ -186,7 +190,9 @@ int  cl_z80::inst_ed_(t_mem code)
 
     case 0x50: // IN D,(C)
       regs.de.h= inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l);
-      regs.raf.F &= ~(BIT_N | BIT_P);
+      regs.raf.F &= ~(BIT_N | BIT_P | BIT_A);
+      SET_S(regs.de.h);
+      SET_Z(regs.de.h);
       if (parity(regs.de.h)) regs.raf.F |= BIT_P;
       vc.rd++;
       //tick(11);
@@ -226,7 +232,9 @@ int  cl_z80::inst_ed_(t_mem code)
 
     case 0x58: // IN E,(C)
       regs.de.l= inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l);
-      regs.raf.F &= ~(BIT_N | BIT_P);
+      regs.raf.F &= ~(BIT_N | BIT_P | BIT_A);
+      SET_S(regs.de.l);
+      SET_Z(regs.de.l);
       if (parity(regs.de.l)) regs.raf.F |= BIT_P;
       vc.rd++;
       //tick(11);
@@ -272,7 +280,9 @@ int  cl_z80::inst_ed_(t_mem code)
 
     case 0x60: // IN H,(C)
       regs.hl.h= inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l);
-      regs.raf.F &= ~(BIT_N | BIT_P);
+      regs.raf.F &= ~(BIT_N | BIT_P | BIT_A);
+      SET_S(regs.hl.h);
+      SET_Z(regs.hl.h);
       if (parity(regs.hl.h)) regs.raf.F |= BIT_P;
       vc.rd++;
       //tick(11);
@@ -312,7 +322,9 @@ int  cl_z80::inst_ed_(t_mem code)
 
     case 0x68: // IN L,(C)
       regs.hl.l= inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l);
-      regs.raf.F &= ~(BIT_N | BIT_P);
+      regs.raf.F &= ~(BIT_N | BIT_P | BIT_A);
+      SET_S(regs.hl.l);
+      SET_Z(regs.hl.l);
       if (parity(regs.hl.l)) regs.raf.F |= BIT_P;
       vc.rd++;
       //tick(11);
@@ -352,7 +364,9 @@ int  cl_z80::inst_ed_(t_mem code)
     case 0x70: // IN (C)  set flags only (TSTI)
       {
         u8_t x= inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l);
-        regs.raf.F &= ~(BIT_N | BIT_P);
+        regs.raf.F &= ~(BIT_N | BIT_P | BIT_A);
+        SET_S(x);
+        SET_Z(x);
         if (parity(x)) regs.raf.F |= BIT_P;
         vc.rd++;
 	//tick(11);
@@ -379,7 +393,9 @@ int  cl_z80::inst_ed_(t_mem code)
 
     case 0x78: // IN A,(C)
       regs.raf.A= inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l);
-      regs.raf.F &= ~(BIT_N | BIT_P);
+      regs.raf.F &= ~(BIT_N | BIT_P | BIT_A);
+      SET_S(regs.raf.A);
+      SET_Z(regs.raf.A);
       if (parity(regs.raf.A)) regs.raf.F |= BIT_P;
       vc.rd++;
       //tick(11);
-- 
2.43.0


From 021fdbe915b0e4156136e5a158b074f3d1a9b32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:58 +0000
Subject: [PATCH 011/119] fix: z80 RRD and RLD do not set the flags

---
 src/sims/z80.src/inst_ed.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/sims/z80.src/inst_ed.cc b/src/sims/z80.src/inst_ed.cc
index 16d6706..1d83430 100644
--- a/src/sims/z80.src/inst_ed.cc
+++ b/src/sims/z80.src/inst_ed.cc
@@ -317,6 +317,10 @@ int  cl_z80::inst_ed_(t_mem code)
       ubtmp = get1(regs.HL);
       store1(regs.HL, (ubtmp >> 4) | (regs.raf.A << 4));
       regs.raf.A = (regs.raf.A & 0xf0) | (ubtmp & 0x0f);
+      regs.raf.F &= ~(BIT_N | BIT_P | BIT_A);
+      SET_S(regs.raf.A);
+      SET_Z(regs.raf.A);
+      if (parity(regs.raf.A)) regs.raf.F |= BIT_P;
       //tick(17);
       return(resGO);
 
@@ -358,6 +362,10 @@ int  cl_z80::inst_ed_(t_mem code)
       ubtmp = get1(regs.HL);
       store1(regs.HL, (ubtmp << 4) | (regs.raf.A & 0x0f));
       regs.raf.A = (regs.raf.A & 0xf0) | (ubtmp >> 4);
+      regs.raf.F &= ~(BIT_N | BIT_P | BIT_A);
+      SET_S(regs.raf.A);
+      SET_Z(regs.raf.A);
+      if (parity(regs.raf.A)) regs.raf.F |= BIT_P;
       //tick(17);
       return(resGO);
 
-- 
2.43.0


From 23c5326953f8a942fc519bd801335c985c17aae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:58 +0000
Subject: [PATCH 012/119] fix: z80 CPI, CPD, CPIR, CPDR and LDDR flags and
 pointers

---
 src/sims/z80.src/inst_ed.cc | 99 ++++++++-----------------------------
 src/sims/z80.src/z80mac.h   | 17 +++++++
 2 files changed, 37 insertions(+), 79 deletions(-)

diff --git a/src/sims/z80.src/inst_ed.cc b/src/sims/z80.src/inst_ed.cc
index 1d83430..977685a 100644
--- a/src/sims/z80.src/inst_ed.cc
+++ b/src/sims/z80.src/inst_ed.cc
@@ -445,16 +445,8 @@ int  cl_z80::inst_ed_(t_mem code)
       return(resGO);
 
     case 0xA1: // CPI
-      // compare acc with mem(HL), if ACC=0 set Z flag.  Incr HL, decr BC.
-      {
-        unsigned char tmp;
-        tmp = get1(regs.HL);
-        cp_bytereg(tmp);
-        ++regs.HL;
-        --regs.BC;
-        if (regs.BC != 0) regs.raf.F |= BIT_P;
-	//tick(15);
-      }
+      // compare acc with mem(HL), if equal set Z flag.  Incr HL, decr BC.
+      cp_block(+1);
       return(resGO);
 
     case 0xA2: // INI
@@ -499,17 +491,7 @@ int  cl_z80::inst_ed_(t_mem code)
       return(resGO);
       
     case 0xA9: // CPD
-/* fixme: checkme, compare to other emul. */
-
-      regs.raf.F &= ~(BIT_ALL);  /* clear these */
-      if ((regs.raf.A - get1(regs.HL)) == 0) {
-        regs.raf.F |= (BIT_Z | BIT_P);
-      }
-      ++regs.HL;
-      --regs.BC;
-      if (regs.BC != 0) regs.raf.F |= BIT_P;
-      vc.rd++;
-      //tick(15);
+      cp_block(-1);
       return(resGO);
 
     case 0xAA: // IND
@@ -562,35 +544,13 @@ int  cl_z80::inst_ed_(t_mem code)
       return(resGO);
 
     case 0xB1: // CPIR
-      // compare acc with mem(HL), if ACC=0 set Z flag.  Incr HL, decr BC.
-      regs.raf.F &= ~(BIT_P | BIT_A | BIT_Z | BIT_S);  /* clear these */
-      regs.raf.F |= BIT_N;
-      //do {
-        if((regs.raf.A - get1(regs.HL)) == 0)
-          regs.raf.F |= BIT_Z;
-        else
-          regs.raf.F &= ~(BIT_Z);
-        if((regs.raf.A - get1(regs.HL)) & 0x80)
-          regs.raf.F |= BIT_S;
-        else
-          regs.raf.F &= ~(BIT_S);
-/* fixme: set BIT_A correctly. */
-        ++regs.HL;
-        --regs.BC;
-        vc.rd++;
-	//tick(15);
-	//if (regs.BC) //tick(5);
-	//} while (regs.BC != 0 && (regs.raf.F & BIT_Z) == 0);
-	if(regs.BC)
-	  {
-	    regs.raf.F |= BIT_P;
-	    if (!(regs.raf.F & BIT_Z))
-	      {
-		cond_true= true;
-		repeating= true;
-		PC= instPC;
-	      }
-	  }
+      cp_block(+1);
+      if (regs.BC && !(regs.raf.F & BIT_Z))
+	{
+	  cond_true= true;
+	  repeating= true;
+	  PC= instPC;
+	}
       return(resGO);
 
     case 0xB2: // INIR
@@ -657,38 +617,19 @@ int  cl_z80::inst_ed_(t_mem code)
 	    repeating= true;
 	    cond_true= true;
 	    PC= instPC;
+	    regs.raf.F|= BIT_P;
 	  }
       return(resGO);
     case 0xB9: // CPDR
-      {
-	bool gotit= false;
-	// compare acc with mem(HL), if ACC=0 set Z flag.  Incr HL, decr BC.
-	regs.raf.F &= ~(BIT_ALL);  /* clear these */
-	//do {
-	  if ((regs.raf.A - get1(regs.HL)) == 0) {
-	    regs.raf.F |= (BIT_Z | BIT_P);
-	    gotit= true;
-	  }
-	  else
-	    {
-	      --regs.HL;
-	      --regs.BC;
-	      vc.rd++;
-	    }
-	  //tick(15);
-	  //if (regs.BC) //tick(5);
-	  //} while (regs.BC != 0);
-	  if (regs.BC)
-	    {
-	      if (!gotit)
-		{
-		  repeating= true;
-		  cond_true= true;
-		  PC= instPC;
-		}
-	    }
-	return(resGO);
-      }
+      cp_block(-1);
+      if (regs.BC && !(regs.raf.F & BIT_Z))
+	{
+	  cond_true= true;
+	  repeating= true;
+	  PC= instPC;
+	}
+      return(resGO);
+
     case 0xBA: // INDR
       //do {
         this->store1(regs.HL, inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l));
diff --git a/src/sims/z80.src/z80mac.h b/src/sims/z80.src/z80mac.h
index 45e9df1..e2f9d49 100644
--- a/src/sims/z80.src/z80mac.h
+++ b/src/sims/z80.src/z80mac.h
@@ -175,6 +175,23 @@
     xy(accu);							    \
   }
 
+/* compare step of CPI, CPD, CPIR and CPDR: carry is not affected, P/V
+   tells if BC is not zero */
+#define cp_block(step)						    \
+  {								    \
+    u8_t at_hl = get1(regs.HL);					    \
+    u8_t result = regs.raf.A - at_hl;				    \
+    vc.rd++;							    \
+    regs.HL+= (step);						    \
+    regs.BC--;							    \
+    regs.raf.F &= ~(BIT_P |BIT_A |BIT_Z |BIT_S);  /* clear these */ \
+    regs.raf.F |= BIT_N;      /* not addition */		    \
+    SET_Z(result);						    \
+    SET_S(result);						    \
+    if ((regs.raf.A & 0x0F) < (at_hl & 0x0F)) regs.raf.F |= BIT_A;  \
+    if (regs.BC != 0) regs.raf.F |= BIT_P;			    \
+  }
+
 #define rr_byte(reg)					    \
   {							    \
     if (regs.raf.F & BIT_C) {				    \
-- 
2.43.0


From 8e0c42cb04595d75eb03965482eb307bb656fedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:41 +0000
Subject: [PATCH 013/119] fix: address decoder one cell longer than the rest of
 the chip accepted

---
 src/core/cmd.src/cmd_mem.cc | 2 +-
 src/core/sim.src/mem.cc     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/cmd.src/cmd_mem.cc b/src/core/cmd.src/cmd_mem.cc
index 619fe7d..e61fc3c 100644
--- a/src/core/cmd.src/cmd_mem.cc
+++ b/src/core/cmd.src/cmd_mem.cc
@@ -234,7 +234,7 @@ COMMAND_DO_WORK_UC(cl_memory_create_addressdecoder_cmd)
   else if (as_begin < as->start_address ||
            as_end > as->highest_valid_address())
     con->dd_printf("Specified area is out of address space\n");
-  else if (as_end-as_begin > chip->get_size()-chip_begin)
+  else if (as_end-as_begin >= chip->get_size()-chip_begin)
     con->dd_printf("Specified area is out of chip size\n");
   else
     {
diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 5ca8218..e5a3731 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -2364,7 +2364,7 @@ cl_address_decoder::activate(class cl_console_base *con)
       D("Specified area is out of address space\n");
       return(false);
     }
-  if (as_end-as_begin > memchip->get_size()-chip_begin)
+  if (as_end-as_begin >= memchip->get_size()-chip_begin)
     {
       D("Specified area is out of chip size\n");
       return(false);
-- 
2.43.0


From 7384f1f4ae5b2f6fa7ae3a3877433fd0d27a9476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:45 +0000
Subject: [PATCH 014/119] fix: chip address of a memory cell computed wrong for
 its slot

---
 src/core/sim.src/mem.cc | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index e5a3731..d3a38e7 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -2128,13 +2128,7 @@ cl_memory_chip::is_slot(void *data_ptr, t_addr *addr_of)
     return false;
   if (p > &(a[alloc_size-1]))
     return false;
-  t_addr i= p - a;
-  if (width <= 8)
-    /*i*/;
-  if (width <= 16)
-    i= i/2;
-  if (width <= 32)
-    i= i/4;
+  t_addr i= (p - a) / bwidth;
   if (addr_of)
     *addr_of= i;
   return true;
-- 
2.43.0


From 9286d9dc36f24539e5181ceba690341143652e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 015/119] fix: memory create addressdecoder crashes on wrong
 parameters

---
 src/core/cmd.src/cmd_mem.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/cmd.src/cmd_mem.cc b/src/core/cmd.src/cmd_mem.cc
index e61fc3c..b852e8d 100644
--- a/src/core/cmd.src/cmd_mem.cc
+++ b/src/core/cmd.src/cmd_mem.cc
@@ -221,7 +221,7 @@ COMMAND_DO_WORK_UC(cl_memory_create_addressdecoder_cmd)
     chip_begin= params[4]->value.number;
   }
   else
-    syntax_error(con);
+    return syntax_error(con), false;
 
   if (!as->is_address_space())
     con->dd_printf("%s is not an address space\n", as->get_name("unknown"));
-- 
2.43.0


From 66382f6c84c4f077b5c72262445593b2b397512d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:50 +0000
Subject: [PATCH 016/119] fix: banker and bander accept an area which ends
 before it begins

---
 src/core/cmd.src/cmd_mem.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/cmd.src/cmd_mem.cc b/src/core/cmd.src/cmd_mem.cc
index b852e8d..0736512 100644
--- a/src/core/cmd.src/cmd_mem.cc
+++ b/src/core/cmd.src/cmd_mem.cc
@@ -293,6 +293,8 @@ COMMAND_DO_WORK_UC(cl_memory_create_banker_cmd)
   else if (ase < banked_as->start_address ||
            ase > banked_as->highest_valid_address())
     con->dd_printf("Specified banked end address is out of address space\n");
+  else if (asb > ase)
+    con->dd_printf("Wrong address area specification\n");
   else
     {
       class cl_banker *d=
@@ -363,6 +365,8 @@ COMMAND_DO_WORK_UC(cl_memory_create_bander_cmd)
   else if (ase < as->start_address ||
            ase > as->highest_valid_address())
     con->dd_printf("Specified end address is out of address space\n");
+  else if (asb > ase)
+    con->dd_printf("Wrong address area specification\n");
   else if (cb < chip->start_address ||
            cb > chip->highest_valid_address())
     con->dd_printf("Specified chip address is out of size\n");
-- 
2.43.0


From 2071f76bb3c125f381b1d3961d88de5c088bed3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 017/119] fix: banker indexes its banks out of range

---
 src/core/sim.src/mem.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index d3a38e7..122a179 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -2599,7 +2599,7 @@ cl_banker::init()
 	m>>= 1, shift_by++;
       b= 1;
       m>>= 1;
-      while ((m&1) != 0)
+      while (m != 0)
 	{
 	  m>>= 1;
 	  b++;
@@ -2615,7 +2615,7 @@ cl_banker::init()
 	m>>=1, shift2_by++;
       b2= 1;
       m>>= 1;
-      while ((m&1) != 0)
+      while (m != 0)
 	m>>= 1, b2++;
       if (b2)
 	nuof_banks*= (1 << b2);
@@ -2698,7 +2698,8 @@ cl_banker::add_bank(int bank_nr, class cl_memory *chip, t_addr chip_start)
   if (!chip->is_chip())
     return;
 
-  if (bank_nr >= nuof_banks)
+  if (bank_nr < 0 ||
+      bank_nr >= nuof_banks)
     return;
   
   class cl_address_decoder *ad= new cl_address_decoder(address_space,
@@ -2753,6 +2754,9 @@ cl_banker::activate(class cl_console_base *con)
 
   if (b == bank)
     return true;
+  if (b < 0 ||
+      b >= nuof_banks)
+    return true;
   if (banks[b] == NULL)
     return true;
   s= as_end - as_begin + 1;
@@ -2778,6 +2782,9 @@ cl_banker::switch_to(int bank_nr, class cl_console_base *con)
 
   if (b == bank)
     return true;
+  if (b < 0 ||
+      b >= nuof_banks)
+    return true;
   if (banks[b] == NULL)
     return true;
   s= as_end - as_begin + 1;
-- 
2.43.0


From 9a96e91ad790127b1115606497f7e4852f581c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:39 +0000
Subject: [PATCH 018/119] fix: replacing a bank undecodes the banked area

---
 src/core/sim.src/mem.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 122a179..52ccc5d 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -2681,7 +2681,11 @@ cl_banker::~cl_banker()
       for (i= 0; i < nuof_banks; i++)
 	{
 	  if (banks[i])
-	    delete banks[i];
+	    {
+	      // cells are undecoded by the banker itself
+	      banks[i]->address_space= NULL;
+	      delete banks[i];
+	    }
 	}
       free(banks);
     }
@@ -2709,10 +2713,13 @@ cl_banker::add_bank(int bank_nr, class cl_memory *chip, t_addr chip_start)
   ad->init();
   if (banks[bank_nr])
     {
+      banks[bank_nr]->address_space= NULL;
       delete banks[bank_nr];
       banks[bank_nr]= 0;
     }
   banks[bank_nr]= ad;
+  if (bank_nr == bank)
+    bank= -1;
   /*
   t_addr a, s, i;
   s= as_end - as_begin + 1;
-- 
2.43.0


From 6ebabe798107826b93385096ac4cb03b16f353ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:02 +0000
Subject: [PATCH 019/119] fix: remaining parts of an overlapped banker or
 bander decode wrong cells

---
 src/core/sim.src/mem.cc  | 89 +++++++++++++++++++++++++++++++++++++++-
 src/core/sim.src/memcl.h |  7 ++++
 2 files changed, 95 insertions(+), 1 deletion(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 52ccc5d..6ac488a 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -2732,6 +2732,49 @@ cl_banker::add_bank(int bank_nr, class cl_memory *chip, t_addr chip_start)
   activate(0);
 }
 
+bool
+cl_banker::shrink_out_of(t_addr begin, t_addr end)
+{
+  t_addr old_begin= as_begin;
+  bool ret= cl_address_decoder::shrink_out_of(begin, end);
+  int i;
+  for (i= 0; i < nuof_banks; i++)
+    {
+      if (!banks[i])
+	continue;
+      banks[i]->as_begin= as_begin;
+      banks[i]->as_end= as_end;
+      banks[i]->chip_begin+= as_begin - old_begin;
+    }
+  return ret;
+}
+
+class cl_address_decoder *
+cl_banker::split(t_addr begin, t_addr end)
+{
+  class cl_banker *nb= NULL;
+  if (begin <= as_begin)
+    {
+      shrink_out_of(as_begin, end);
+      return NULL;
+    }
+  if (as_end > end)
+    {
+      t_addr dist= end+1 - as_begin;
+      int i;
+      nb= new cl_banker(banker_as, banker_addr, banker_mask,
+			banker2_as, banker2_addr, banker2_mask, banker2_shift,
+			address_space, end+1, as_end);
+      nb->init();
+      for (i= 0; i < nuof_banks; i++)
+	if (banks[i])
+	  nb->add_bank(i, banks[i]->memchip, banks[i]->chip_begin + dist);
+      nb->bank= -1; // let activation map it again
+    }
+  shrink_out_of(begin, as_end);
+  return nb;
+}
+
 t_mem
 cl_banker::actual_bank()
 {
@@ -2902,6 +2945,50 @@ cl_bander::cl_bander(class cl_address_space *the_as,
 {
   bpc= the_bpc;
   distance= the_distance;
+  first_bit= 0;
+}
+
+bool
+cl_bander::shrink_out_of(t_addr begin, t_addr end)
+{
+  t_addr old_begin= as_begin, old_chip= chip_begin;
+  bool ret= cl_address_decoder::shrink_out_of(begin, end);
+  if (as_begin != old_begin)
+    {
+      t_addr bits= first_bit + (as_begin - old_begin);
+      chip_begin= old_chip;
+      if (bpc > 0)
+	{
+	  chip_begin+= (bits / bpc) * distance;
+	  first_bit= bits % bpc;
+	}
+    }
+  return ret;
+}
+
+class cl_address_decoder *
+cl_bander::split(t_addr begin, t_addr end)
+{
+  class cl_bander *nb= NULL;
+  if (begin <= as_begin)
+    {
+      shrink_out_of(as_begin, end);
+      return NULL;
+    }
+  if (as_end > end)
+    {
+      t_addr bits= first_bit + (end+1 - as_begin);
+      t_addr cb= chip_begin;
+      if (bpc > 0)
+	cb+= (bits / bpc) * distance;
+      nb= new cl_bander(address_space, end+1, as_end, memchip, cb,
+			bpc, distance);
+      if (bpc > 0)
+	nb->first_bit= bits % bpc;
+      nb->init();
+    }
+  shrink_out_of(begin, as_end);
+  return nb;
 }
 
 bool
@@ -2911,7 +2998,7 @@ cl_bander::activate(class cl_console_base *con)
 
   t_addr asa, ca;
   int b, m;
-  for (asa= as_begin, ca= chip_begin, b= 0, m= 1;
+  for (asa= as_begin, ca= chip_begin, b= first_bit, m= 1 << first_bit;
        asa <= as_end;
        asa++)
     {
diff --git a/src/core/sim.src/memcl.h b/src/core/sim.src/memcl.h
index 21b12d7..5619b3e 100644
--- a/src/core/sim.src/memcl.h
+++ b/src/core/sim.src/memcl.h
@@ -726,6 +726,9 @@ class cl_banker: public cl_address_decoder
 
   virtual void add_bank(int bank_nr, class cl_memory *chip, t_addr chip_start);
 
+  virtual bool shrink_out_of(t_addr begin, t_addr end);
+  virtual class cl_address_decoder *split(t_addr begin, t_addr end);
+
   virtual t_mem actual_bank();
   virtual bool activate(class cl_console_base *con);
   virtual bool switch_to(int bank_nr, class cl_console_base *con);
@@ -744,6 +747,7 @@ class cl_bander: public cl_address_decoder
  protected:
   int bpc; // bits_per_chip
   int distance; // distance of next chip location
+  int first_bit; // bit of the first chip location where area starts
  public:
   cl_bander(class cl_address_space *the_as,
 	    t_addr the_asb,
@@ -755,6 +759,9 @@ class cl_bander: public cl_address_decoder
  public:
   virtual bool is_bander() { return true; }
 
+  virtual bool shrink_out_of(t_addr begin, t_addr end);
+  virtual class cl_address_decoder *split(t_addr begin, t_addr end);
+
   virtual bool activate(class cl_console_base *con);
   virtual void print_info(const char *pre, class cl_console_base *con);
 };
-- 
2.43.0


From aa71208e1f59281f7cf7d6ec7e405d704667f3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:05 +0000
Subject: [PATCH 020/119] fix: decoder mapped over bits of a bander keeps bit
 mask of the bander

---
 src/core/sim.src/mem.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 6ac488a..4b3a38d 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -1159,6 +1159,7 @@ cl_memory_cell::un_decode(void)
 void
 cl_memory_cell::decode(class cl_memory_chip *chip, t_addr addr)
 {
+  set_width(width); // mask could be altered by a bander
   data= chip->get_slot(addr);
   if (!data)
     {
-- 
2.43.0


From 9b8f7d95feb851b39e60b773f1415a4178a2df30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:40 +0000
Subject: [PATCH 021/119] fix: removing a chip used by a banker and by a
 decoder too deletes the banker twice

---
 src/core/cmd.src/cmd_mem.cc | 2 +-
 src/core/sim.src/uc.cc      | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/cmd.src/cmd_mem.cc b/src/core/cmd.src/cmd_mem.cc
index 0736512..8750c5f 100644
--- a/src/core/cmd.src/cmd_mem.cc
+++ b/src/core/cmd.src/cmd_mem.cc
@@ -539,7 +539,7 @@ COMMAND_DO_WORK_UC(cl_memory_remove_chip_cmd)
     chip= params[0]->value.memory.memory;
   }
   else
-    syntax_error(con);
+    return syntax_error(con), false;
 
   if (!chip)
     con->dd_printf("Wrong id\n");
diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index f03c52c..c3fbebb 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -1398,7 +1398,9 @@ cl_uc::remove_chip(class cl_memory *chip)
 		}
 	      if (ad->is_banker())
 		{
-		  if (ad->uses_chip(chip))
+		  t_index bidx;
+		  if (ad->uses_chip(chip) &&
+		      !bankers.index_of(ad, &bidx))
 		    {
 		      bankers.add(ad);
 		    }
-- 
2.43.0


From 0644a2f68afe84ce8435587d226d7c83de6c230e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:52 +0000
Subject: [PATCH 022/119] fix: banked SFRs of C8051F380 are not decoded until
 bank is switched

---
 src/core/sim.src/mem.cc  | 2 ++
 src/core/sim.src/memcl.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 4b3a38d..f035379 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -1904,6 +1904,8 @@ cl_address_space::undecode_area(class cl_address_decoder *skip,
 	    }
 	}
     }
+  if (skip)
+    skip->undecoded();
 #undef D
 }
 
diff --git a/src/core/sim.src/memcl.h b/src/core/sim.src/memcl.h
index 5619b3e..110bd81 100644
--- a/src/core/sim.src/memcl.h
+++ b/src/core/sim.src/memcl.h
@@ -668,6 +668,7 @@ public:
   virtual bool is_bander() { return false; }
   virtual bool uses_chip(class cl_memory *chip) { return chip==memchip; }
 
+  virtual void undecoded() {} // cells of the area have been undecoded
   virtual bool activate(class cl_console_base *con);
 
   t_addr as_to_chip(t_addr addr) { return addr - as_begin + chip_begin; }
@@ -730,6 +731,7 @@ class cl_banker: public cl_address_decoder
   virtual class cl_address_decoder *split(t_addr begin, t_addr end);
 
   virtual t_mem actual_bank();
+  virtual void undecoded() { bank= -1; }
   virtual bool activate(class cl_console_base *con);
   virtual bool switch_to(int bank_nr, class cl_console_base *con);
   virtual bool uses_chip(class cl_memory *chip);
-- 
2.43.0


From ddc4f2c03962a5992188d717042e7423421db97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:23 +0000
Subject: [PATCH 023/119] fix: reset of C8051F380 does not reset SFRPAGE

---
 src/sims/s51.src/uc380.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims/s51.src/uc380.cc b/src/sims/s51.src/uc380.cc
index 5b0bccf..205a1a8 100644
--- a/src/sims/s51.src/uc380.cc
+++ b/src/sims/s51.src/uc380.cc
@@ -166,6 +166,7 @@ cl_uc380::decode_sfr(void)
 void
 cl_uc380::clear_sfr(void)
 {
+  sfr->write(/*SFRPAGE*/0xbf, 0);
   cl_uc52::clear_sfr();
 
   sfr->write(/*P4*/0xc7, 0xff);
-- 
2.43.0


From 6bf3f002ae180d801811d1ed660b3c964dd1b270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:09 +0000
Subject: [PATCH 024/119] fix: next does not step over ACALL to page 0 of 8051

---
 src/sims/s51.src/glob.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/s51.src/glob.cc b/src/sims/s51.src/glob.cc
index 25a02a6..9a3307a 100644
--- a/src/sims/s51.src/glob.cc
+++ b/src/sims/s51.src/glob.cc
@@ -54,7 +54,7 @@ struct dis_entry disass_51[]= {
   { 0x0e, 0xff, ' ', 1, "INC R6"},
   { 0x0f, 0xff, ' ', 1, "INC R7"},
   { 0x10, 0xff, 'R', 3, "JBC %b,%R"},
-  { 0x11, 0xff, 'a', 2, "ACALL %A"},
+  { 0x11, 0xff, 'a', 2, "ACALL %A", true},
   { 0x12, 0xff, 'l', 3, "LCALL %l", true},
   { 0x13, 0xff, ' ', 1, "RRC A"},
   { 0x14, 0xff, ' ', 1, "DEC A"},
-- 
2.43.0


From 635e4a016d7160e413fc8adf231214142a95073e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:50 +0000
Subject: [PATCH 025/119] fix: temporary event breakpoint is not deleted when
 accepted, stale events stop an idle CPU again

---
 src/core/sim.src/uc.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index c3fbebb..28838ab 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -3846,6 +3846,16 @@ cl_uc::check_events(void)
 	(class cl_ev_brk *)(events->object_at(i));
       brk->breaking();
     }
+  // accepted temporary breakpoints are not needed any more
+  while (events->count)
+    {
+      class cl_brk *brk= (class cl_brk *)(events->object_at(0));
+      t_index idx;
+      while (events->index_of(brk, &idx))
+	events->disconn_at(idx);
+      if (brk->perm == brkDYNAMIC)
+	ebrk->del_bp(ebrk->index_of(brk), 0);
+    }
 }
 
 void
-- 
2.43.0


From edf388f2bf42b2a4940a610ceb58b8e4c567827a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:52 +0000
Subject: [PATCH 026/119] fix: m6809 memory modify instructions read their
 operand twice, JMP reads its target

---
 src/sims/m6809.src/m6809.cc | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index b2796ed..3e03f0a 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -2069,9 +2069,7 @@ cl_m6809::inst_low(t_mem code)
     {
     case 0x00: // direct
       ea= reg.DP*256 + fetch();
-      op8= rom->read(ea);
       tick(2);
-      vc.rd++;
       break;
     case 0x60: // index
       {
@@ -2080,16 +2078,12 @@ cl_m6809::inst_low(t_mem code)
 	tick(1);
 	if ((r= index2ea(idx, &ea)) != resGO)
 	  return r;
-	op8= rom->read(ea);
 	tick(1);
-	vc.rd++;
 	break;
       }
     case 0x70: // extend
       ea= fetch()*256 + fetch();
-      op8= rom->read(ea);
       tick(3);
-      vc.rd++;
       break;
     }
 
-- 
2.43.0


From e1ec93e0bc26e8efe47195f3f848e8645270cb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:58 +0000
Subject: [PATCH 027/119] fix: next does not step over m6809 subroutine calls

---
 src/sims/m6809.src/glob.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sims/m6809.src/glob.cc b/src/sims/m6809.src/glob.cc
index abb452e..481973f 100644
--- a/src/sims/m6809.src/glob.cc
+++ b/src/sims/m6809.src/glob.cc
@@ -78,12 +78,12 @@ struct dis_entry disass_m6809[]=
    { 0x2e, 0xff, 'b', 1, "BGT %b"	, 0, 0 },
    { 0x2f, 0xff, 'b', 1, "BLE %b"	, 0, 0 },
 
-   { 0x8d, 0xff, 's', 1, "BSR %b"	, 0, 0 },
-   { 0xbd, 0xff, 's', 1, "JSR %j"	, 0, 0 },
-   { 0x8d, 0xcf, 's', 1, "JSR %b"	, 0, 0 },
+   { 0x8d, 0xff, 's', 1, "BSR %b"	, true, 0 },
+   { 0xbd, 0xff, 's', 1, "JSR %j"	, true, 0 },
+   { 0x8d, 0xcf, 's', 1, "JSR %b"	, true, 0 },
    
    { 0x16, 0xff, ' ', 1, "LBRA %B"	, 0, 0 },
-   { 0x17, 0xff, ' ', 1, "LBSR %B"	, 0, 0 },
+   { 0x17, 0xff, ' ', 1, "LBSR %B"	, true, 0 },
 
    { 0x30, 0xff, ' ', 1, "LEAX %X"	, 0, 0 },
    { 0x31, 0xff, ' ', 1, "LEAY %X"	, 0, 0 },
-- 
2.43.0


From 4a29ae7c655223b7083107a8c9efbb6f2fc9626b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:32 +0000
Subject: [PATCH 028/119] fix: m6809 store and call instructions read their
 target

---
 src/sims/m6809.src/m6809.cc | 39 ++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index 3e03f0a..e253db0 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -1150,6 +1150,7 @@ cl_m6809::inst_alu(t_mem code)
   u8_t *acc, op8, idx;
   u16_t op16;
   t_addr ea;
+  bool rd;
   
   if (code == 0x87 ||
       code == 0xc7 ||
@@ -1159,6 +1160,8 @@ cl_m6809::inst_alu(t_mem code)
     return resINV_INST;
   
   acc= (code & 0x40)? (&B) : (&A);
+  // stores and JSR do not read their operand
+  rd= ((code&0x0f) != 0x07) && ((code&0x0f) != 0x0d) && ((code&0x0f) != 0x0f);
 
   switch (code & 0x30)
     {
@@ -1170,9 +1173,10 @@ cl_m6809::inst_alu(t_mem code)
     case 0x10: // direct
       ea= reg.DP*256 + fetch();
       tick(2);
-      op8= rom->read(ea);
+      op8= 0;
+      if (rd)
+        op8= rom->read(ea), vc.rd++;
       tick(1);
-      vc.rd++;
       break;
     case 0x20: // index
       {
@@ -1181,17 +1185,19 @@ cl_m6809::inst_alu(t_mem code)
 	tick(1);
 	if ((r= index2ea(idx, &ea)) != resGO)
 	  return r;
-	op8= rom->read(ea);
+	op8= 0;
+	if (rd)
+	  op8= rom->read(ea), vc.rd++;
 	tick(1);
-	vc.rd++;
 	break;
       }
     case 0x30: // extend
       ea= fetch()*256 + fetch();
       tick(3);
-      op8= rom->read(ea);
+      op8= 0;
+      if (rd)
+        op8= rom->read(ea), vc.rd++;
       tick(1);
-      vc.rd++;
       break;
     default: op8= 0; break;
     }
@@ -2186,6 +2192,7 @@ cl_m6809::inst_page1(t_mem code)
   */
   u8_t cl= code & 0xf;
   u8_t ch= code >> 4;
+  bool rd= cl != 0xf; // stores do not read their operand
   switch (code & 0x30)
     {
     case 0x00: // immed
@@ -2200,9 +2207,10 @@ cl_m6809::inst_page1(t_mem code)
       if ((ch==13)&&(cl!=14)&&(cl!=15)) return resINV_INST;
       ea= reg.DP*256 + fetch();
       tick(1);
-      op8= rom->read(ea);
+      op8= 0;
+      if (rd)
+        op8= rom->read(ea), vc.rd++;
       tick(1);
-      vc.rd++;
       break;
     case 0x20: // index
       {
@@ -2213,9 +2221,10 @@ cl_m6809::inst_page1(t_mem code)
 	tick(1);
 	if ((r= index2ea(idx, &ea)) != resGO)
 	  return r;
-	op8= rom->read(ea);
+	op8= 0;
+	if (rd)
+	  op8= rom->read(ea), vc.rd++;
 	tick(1);
-	vc.rd++;
 	break;
       }
     case 0x30: // extend
@@ -2223,9 +2232,10 @@ cl_m6809::inst_page1(t_mem code)
       if ((ch==15)&&(cl!=14)&&(cl!=15)) return resINV_INST;
       ea= fetch()*256 + fetch();
       tick(2);
-      op8= rom->read(ea);
+      op8= 0;
+      if (rd)
+        op8= rom->read(ea), vc.rd++;
       tick(1);
-      vc.rd++;
       break;
     default: op8= 0; break;
     }
@@ -2237,9 +2247,10 @@ cl_m6809::inst_page1(t_mem code)
     }
   else
     {
-      op16= op8*256 + rom->read(ea+1);
+      op16= 0;
+      if (rd)
+	op16= op8*256 + rom->read(ea+1), vc.rd++;
       tick(1);
-      vc.rd++;
     }
   
   switch (cl)
-- 
2.43.0


From 10017222ee397e3ee58879091a05639ed45783ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:13 +0000
Subject: [PATCH 029/119] fix: read breakpoint or vcd recording of a hardware
 register changes the value read by the program

---
 src/core/sim.src/mem.cc  | 22 ++++++++++++++++------
 src/core/sim.src/memcl.h |  4 ++++
 src/core/sim.src/vcd.cc  |  1 +
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index f035379..a8d6cf0 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -1211,7 +1211,11 @@ cl_memory_cell::read(void)
     {
       t_mem r= 0;
       for (int i=0; ops[i]; i++)
-	r= ops[i]->read();
+	{
+	  t_mem v= ops[i]->read();
+	  if ((i == 0) || !ops[i]->is_observer())
+	    r= v;
+	}
       return r;
     }
   return d();
@@ -1227,7 +1231,11 @@ cl_memory_cell::read(enum hw_cath skip)
     {
       t_mem r= 0;
       for (int i=0; ops[i]; i++)
-	r= ops[i]->read(skip);
+	{
+	  t_mem v= ops[i]->read(skip);
+	  if ((i == 0) || !ops[i]->is_observer())
+	    r= v;
+	}
       return r;
     }
   return d();
@@ -1365,9 +1373,10 @@ cl_memory_cell::del_operator(class cl_brk *brk)
       else
 	old= ops[src];
     }
+  if (!old)
+    return;
   ops[dst]= NULL;
-  if (old)
-    delete old;
+  delete old;
   if (dst==0)
     free(ops), ops= NULL;
 }
@@ -1389,9 +1398,10 @@ cl_memory_cell::del_operator(class cl_hw *hw)
       else
 	old= ops[src];
     }
+  if (!old)
+    return;
   ops[dst]= NULL;
-  if (old)
-    delete old;
+  delete old;
   if (dst==0)
     free(ops), ops= NULL;
 }
diff --git a/src/core/sim.src/memcl.h b/src/core/sim.src/memcl.h
index 110bd81..9d99023 100644
--- a/src/core/sim.src/memcl.h
+++ b/src/core/sim.src/memcl.h
@@ -235,6 +235,8 @@ public:
   virtual t_mem write(t_mem val);
 
   virtual class cl_banker *get_banker(void) { return NULL; }
+  // does not determine value of the cell at read
+  virtual bool is_observer(void) { return(false); }
 };
 
 class cl_bank_switcher_operator: public cl_memory_operator
@@ -247,6 +249,7 @@ class cl_bank_switcher_operator: public cl_memory_operator
   
   virtual t_mem write(t_mem val);
   virtual class cl_banker *get_banker(void) { return banker; }
+  virtual bool is_observer(void) { return(true); }
 };
 
 class cl_hw_operator: public cl_memory_operator
@@ -279,6 +282,7 @@ public:
   }
 
   virtual bool match(class cl_brk *brk) { return(bp == brk); }
+  virtual bool is_observer(void) { return(true); }
 };
 
 class cl_write_operator: public cl_event_break_operator
diff --git a/src/core/sim.src/vcd.cc b/src/core/sim.src/vcd.cc
index 20ccf8e..ad4db21 100644
--- a/src/core/sim.src/vcd.cc
+++ b/src/core/sim.src/vcd.cc
@@ -107,6 +107,7 @@ class cl_vcd_var: public cl_memory_operator
   ~cl_vcd_var(void);
 
   t_mem write(t_mem val);
+  bool is_observer(void) { return(true); }
 };
 
 
-- 
2.43.0


From c932caf2ed1369c31825f095a5b68486a14c9ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:41 +0000
Subject: [PATCH 030/119] fix: breakpoint at invalid address can not be
 deleted, delete never returns

---
 src/core/cmd.src/cmd_bp.cc   | 4 +++-
 src/core/cmd.src/cmd_exec.cc | 4 +++-
 src/core/sim.src/uc.cc       | 5 +----
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/core/cmd.src/cmd_bp.cc b/src/core/cmd.src/cmd_bp.cc
index 32c581d..58f44d0 100644
--- a/src/core/cmd.src/cmd_bp.cc
+++ b/src/core/cmd.src/cmd_bp.cc
@@ -262,7 +262,9 @@ cl_break_cmd::do_fetch(class cl_uc *uc,
       con->dd_printf("Hit value %d is too big.\n", hit);
       return;
     }
-  if (uc->fbrk->bp_at(addr))
+  if (!uc->rom->valid_address(addr))
+    con->dd_printf("Address 0x%06x is invalid.\n", AI(addr));
+  else if (uc->fbrk->bp_at(addr))
     con->dd_printf("Breakpoint at 0x%06x is already set.\n", AI(addr));
   else
     {
diff --git a/src/core/cmd.src/cmd_exec.cc b/src/core/cmd.src/cmd_exec.cc
index 1140d0d..477fea6 100644
--- a/src/core/cmd.src/cmd_exec.cc
+++ b/src/core/cmd.src/cmd_exec.cc
@@ -69,7 +69,8 @@ COMMAND_DO_WORK_SIM(cl_run_cmd)
 	return(false);
       }
   if (params[1])
-    if (!(params[1]->get_address(sim->uc, &end)))
+    if (!(params[1]->get_address(sim->uc, &end)) ||
+	!(sim->uc->rom->valid_address(end)))
       {
 	con->dd_printf("Error: wrong end address\n");
 	return(false);
@@ -283,6 +284,7 @@ COMMAND_DO_WORK_SIM(cl_next_cmd)
   if (is_call)
     {
       next= sim->uc->next_inst(sim->uc->PC);
+      next= sim->uc->rom->validate_address(next);
       if (!sim->uc->fbrk_at(next))
 	{
 	  b= new cl_fetch_brk(sim->uc->rom,
diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 28838ab..297d915 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -3791,10 +3791,7 @@ void
 cl_uc::remove_all_breaks(void)
 {
   while (fbrk->count)
-    {
-      class cl_brk *brk= (class cl_brk *)(fbrk->at(0));
-      fbrk->del_bp(brk->addr);
-    }
+    fbrk->del_bp(fbrk->count-1, 0);
   while (ebrk->count)
     ebrk->del_bp(ebrk->count-1, 0);
 }
-- 
2.43.0


From cb6271581ca14ef358fd550edd73d3f883ccba74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:16 +0000
Subject: [PATCH 031/119] fix: where crashes on memory wider than 8 bits

---
 src/core/sim.src/mem.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index a8d6cf0..92641f7 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -714,9 +714,9 @@ cl_memory::search_next(bool case_sensitive,
 	  d2= array[i];
 	  if (!case_sensitive)
 	    {
-	      if (/*d1 < 128*/isalpha(d1))
+	      if ((d1 < 256) && isalpha(d1))
 		d1= toupper(d1);
-	      if (/*d2 < 128*/isalpha(d2))
+	      if ((d2 < 256) && isalpha(d2))
 		d2= toupper(d2);
 	    }
 	  match= d1 == d2;
-- 
2.43.0


From 278fb27b8cfcb8294fbf1c9cf818bb8d4fda72ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:05 +0000
Subject: [PATCH 032/119] fix: time passes at a breakpoint on DS320

---
 src/sims/s51.src/uc320.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/s51.src/uc320.cc b/src/sims/s51.src/uc320.cc
index c4518d0..69c12d4 100644
--- a/src/sims/s51.src/uc320.cc
+++ b/src/sims/s51.src/uc320.cc
@@ -220,10 +220,10 @@ cl_uc320::exec_inst(void)
 
   instPC= PC;
   pending_ticks= 0;
-  code= rom->read(PC);
+  code= rom->get(PC);
   res= cl_uc521::exec_inst();
 
-  if (res != resNOT_DONE)
+  if ((res != resNOT_DONE) && (res != resBREAKPOINT))
     tick(uc320_timing[code] - pending_ticks);
 
   return(res);
-- 
2.43.0


From 50d250cf040bb972d6388a4e4eb49a2ce9a0fc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:44 +0000
Subject: [PATCH 033/119] fix: m6809 EXG with PC crashes, time passes at a
 breakpoint

---
 src/sims/m6809.src/m6809.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index e253db0..4c4437c 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -1428,8 +1428,14 @@ cl_m6809::inst_10(t_mem code)
 	    u16_t *R2= reg16_ptr[r2&7];
 	    u16_t t;
 	    t= (R1)?*R1:PC;
-	    *R1= (R2)?*R2:PC;
-	    *R2= t;
+	    if (R1)
+	      *R1= (R2)?*R2:PC;
+	    else
+	      PC= (R2)?*R2:PC;
+	    if (R2)
+	      *R2= t;
+	    else
+	      PC= t;
 	  }
 	else
 	  {
@@ -2375,9 +2381,9 @@ cl_m6809::exec_inst(void)
   bool fe;
 
   fe= fetch(&code);
-  tick(1);
   if (fe)
     return(resBREAKPOINT);
+  tick(1);
 
   if (code & 0x80)
     return inst_alu(code);
-- 
2.43.0


From 5ebb9dc3549d640f1eea7a7796fc78962a796836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:50 +0000
Subject: [PATCH 034/119] fix: i8085 time passes at a breakpoint

---
 src/sims/i8085.src/i8080.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sims/i8085.src/i8080.cc b/src/sims/i8085.src/i8080.cc
index 7d39cef..fc081e6 100644
--- a/src/sims/i8085.src/i8080.cc
+++ b/src/sims/i8085.src/i8080.cc
@@ -467,9 +467,12 @@ cl_i8080::exec_inst(void)
   u16_t *ttab= tick_tab();
 
   tick_shift= 0;
-  if ((res= exec_inst_tab(itab)) != resNOT_DONE)
+  res= exec_inst_tab(itab);
+  if (res == resBREAKPOINT)
+    return res;
+  if (res != resNOT_DONE)
     {
-      u8_t code= rom->read(instPC);
+      u8_t code= rom->get(instPC);
       u16_t t= ttab[code];
       t>>= tick_shift;
       t&= 0xff;
-- 
2.43.0


From 0310d71de4a9c7289a97e5668b67a853981e713f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:16 +0000
Subject: [PATCH 035/119] fix: hole command reads memory as the program does

---
 src/core/cmd.src/cmd_uc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/cmd.src/cmd_uc.cc b/src/core/cmd.src/cmd_uc.cc
index ed2e3c4..8187a1d 100644
--- a/src/core/cmd.src/cmd_uc.cc
+++ b/src/core/cmd.src/cmd_uc.cc
@@ -780,7 +780,7 @@ COMMAND_DO_WORK_UC(cl_hole_cmd)
       //	     l, h, a, v);
       for (ad= l; ad <= h; ad++)
 	{
-	  mv= m->read(ad);
+	  mv= m->get(ad);
 	  if (!in && (mv==v))
 	    {
 	      // found start
-- 
2.43.0


From 6eeff81bad32446617fbe4c049145f245e306530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:24 +0000
Subject: [PATCH 036/119] fix: hole command reports holes one cell shorter than
 they are

---
 src/core/cmd.src/cmd_uc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/cmd.src/cmd_uc.cc b/src/core/cmd.src/cmd_uc.cc
index 8187a1d..60ad79a 100644
--- a/src/core/cmd.src/cmd_uc.cc
+++ b/src/core/cmd.src/cmd_uc.cc
@@ -786,7 +786,7 @@ COMMAND_DO_WORK_UC(cl_hole_cmd)
 	      // found start
 	      sa= ad;
 	      in= true;
-	      len= 0;
+	      len= 1;
 	    }
 	  else if (in && (mv==v))
 	    {
-- 
2.43.0


From f2a3ff109cd9273d8d76f4447c1e8c8ab90eceac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:04 +0000
Subject: [PATCH 037/119] fix: mos6502 listing never ends when invalid opcode
 is reached

---
 src/sims/mos6502.src/mos6502.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/mos6502.src/mos6502.cc b/src/sims/mos6502.src/mos6502.cc
index 78910b8..00e62c0 100644
--- a/src/sims/mos6502.src/mos6502.cc
+++ b/src/sims/mos6502.src/mos6502.cc
@@ -674,8 +674,8 @@ int
 cl_mos6502::inst_length(t_addr addr)
 {
   struct dis_entry *de= get_dis_entry(addr);
-  if (!de)
-    return 0;
+  if (!de || !de->mnemonic)
+    return 1;
   return de->length;
 }
 
-- 
2.43.0


From ceb27cba8d9962ec09115d988d5ec7cec0efe30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:40 +0000
Subject: [PATCH 038/119] fix: info hardware pia acknowledges interrupt
 requests

---
 src/core/motorola.src/pia.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/motorola.src/pia.cc b/src/core/motorola.src/pia.cc
index e015490..62b0d3e 100644
--- a/src/core/motorola.src/pia.cc
+++ b/src/core/motorola.src/pia.cc
@@ -623,8 +623,8 @@ cl_pia::set_help(class cl_console_base *con)
 void
 cl_pia::print_info(class cl_console_base *con)
 {
-  u8_t ca= cra->read();
-  u8_t cb= crb->read();
+  u8_t ca= cra->get();
+  u8_t cb= crb->get();
   con->dd_printf("%s[%d] at 0x%06x %s\n", id_string, id, base, on?"on ":"off");
   con->dd_printf("0x%04x ", base+0);
   if (ca & 4)
-- 
2.43.0


From 16c3211dfa37d466560101a8df4359f2c684320e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:58 +0000
Subject: [PATCH 039/119] fix: m6800 non-maskable interrupt is not accepted
 until its enable variable is read

---
 src/core/motorola.src/irq68.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/motorola.src/irq68.cc b/src/core/motorola.src/irq68.cc
index 77f70ef..96462e7 100644
--- a/src/core/motorola.src/irq68.cc
+++ b/src/core/motorola.src/irq68.cc
@@ -46,6 +46,7 @@ cl_irq_hw::init()
   //class cl_var *v;
 
   cl_hw::init();
+  cfg_set(m68_nmi_en, 1);
 
   return 0;
 }
-- 
2.43.0


From 843fde5d2cd0d11dd7d313e94dc40a618bbf16bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:00 +0000
Subject: [PATCH 040/119] fix: i8041 status register shown out of date

---
 src/sims/i8048.src/i8041.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/i8048.src/i8041.cc b/src/sims/i8048.src/i8041.cc
index 6dd3504..98ba682 100644
--- a/src/sims/i8048.src/i8041.cc
+++ b/src/sims/i8048.src/i8041.cc
@@ -332,7 +332,7 @@ void
 cl_i8041_cpu::print_info(class cl_console_base *con)
 {
   class cl_i8041 *u= (class cl_i8041 *)uc;
-   u8_t s= cfg_get(i8041cpu_status);
+   u8_t s= cfg_read(i8041cpu_status);
   con->dd_printf("DBBIN = 0x%02x\n", cfg_get(i8041cpu_in));
   con->dd_printf("DBBOUT= 0x%02x\n", cfg_get(i8041cpu_out));
   con->dd_printf("STATUS= 0x%02x IBF=%d OBF=%d flags41=0x%02x\n",
-- 
2.43.0


From d37d99f08cba65bccd8830a7e033a86c259cb5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:23 +0000
Subject: [PATCH 041/119] fix: oisc simulation does not stop at breakpoint

---
 src/sims/oisc.src/oisc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/oisc.src/oisc.cc b/src/sims/oisc.src/oisc.cc
index 17ea62b..a964bb5 100644
--- a/src/sims/oisc.src/oisc.cc
+++ b/src/sims/oisc.src/oisc.cc
@@ -256,7 +256,7 @@ cl_oisc::exec_inst(void)
       rom->write(dst, tmp);
       tick(4);
     }
-  return ret;
+  return ret?resBREAKPOINT:resGO;
 }
 
 
-- 
2.43.0


From f9eda2762552ccadd9f8498761c877d937c96e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:25 +0000
Subject: [PATCH 042/119] fix: urisc registers are not mapped to memory until
 they are printed

---
 src/sims/oisc.src/urisc.cc | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/sims/oisc.src/urisc.cc b/src/sims/oisc.src/urisc.cc
index 315e1a2..2d4e5b2 100644
--- a/src/sims/oisc.src/urisc.cc
+++ b/src/sims/oisc.src/urisc.cc
@@ -78,6 +78,16 @@ cl_urisc::init_alu(void)
 {
   id_str= "Ultimate_RISC";
   reg_cell_var(&cF, &rF, "F", "Flags");
+  class cl_memory_cell *c;
+  c= rom->get_cell(0xfff0); c->append_operator(new cl_op_pass(c, this));
+  c= rom->get_cell(0xfff1); c->append_operator(new cl_op_pass(c, this));
+  c= rom->get_cell(0xfff2); c->append_operator(new cl_op_pass(c, this));
+  c= rom->get_cell(0xfff3); c->append_operator(new cl_op_pass(c, this));
+  c= rom->get_cell(0xfff4); c->append_operator(new cl_op_pass(c, this));
+  c= rom->get_cell(0xfff5); c->append_operator(new cl_op_pass(c, this));
+  c= rom->get_cell(0xfff6); c->append_operator(new cl_op_pass(c, this));
+  c= rom->get_cell(0xfff7); c->append_operator(new cl_op_pass(c, this));
+  c= rom->get_cell(0xffff); c->append_operator(new cl_op_pass(c, this));
 }
 
 void
@@ -90,15 +100,6 @@ cl_urisc::print_regs(class cl_console_base *con)
   con->dd_printf(" 0x%02x", rF);
   con->dd_printf("\n");
   print_disass(PC, con);
-  class cl_memory_cell *c;
-  c= rom->get_cell(0xfff0); c->append_operator(new cl_op_pass(c, this));
-  c= rom->get_cell(0xfff1); c->append_operator(new cl_op_pass(c, this));
-  c= rom->get_cell(0xfff2); c->append_operator(new cl_op_pass(c, this));
-  c= rom->get_cell(0xfff3); c->append_operator(new cl_op_pass(c, this));
-  c= rom->get_cell(0xfff4); c->append_operator(new cl_op_pass(c, this));
-  c= rom->get_cell(0xfff5); c->append_operator(new cl_op_pass(c, this));
-  c= rom->get_cell(0xfff6); c->append_operator(new cl_op_pass(c, this));
-  c= rom->get_cell(0xfff7); c->append_operator(new cl_op_pass(c, this));
 }
 
 
-- 
2.43.0


From c18a14728f4b49d2f3294e3bced6667adf4c2bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:28 +0000
Subject: [PATCH 043/119] fix: oisc disassembly and register display change the
 machine

---
 src/sims/oisc.src/em.cc     | 2 +-
 src/sims/oisc.src/misc16.cc | 6 +++---
 src/sims/oisc.src/oisc.cc   | 6 +++---
 src/sims/oisc.src/urisc.cc  | 2 +-
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/sims/oisc.src/em.cc b/src/sims/oisc.src/em.cc
index 24d3486..8b64d29 100644
--- a/src/sims/oisc.src/em.cc
+++ b/src/sims/oisc.src/em.cc
@@ -60,7 +60,7 @@ cl_em::cl_em(class cl_sim *asim):
 void
 cl_em::print_regs(class cl_console_base *con)
 {
-  u16_t v= rom->read(rP);
+  u16_t v= rom->get(rP);
   print_acc(con);
   con->dd_printf("P= %04x %5u %+5d ", rP, rP, rP);
   con->dd_printf(" [P]= %04x %5u %+5d\n", v, v, v);
diff --git a/src/sims/oisc.src/misc16.cc b/src/sims/oisc.src/misc16.cc
index 6a1f9b4..576df95 100644
--- a/src/sims/oisc.src/misc16.cc
+++ b/src/sims/oisc.src/misc16.cc
@@ -195,19 +195,19 @@ cl_misc16::dis_comment(t_addr src, t_addr dst)
 	sa= rA;
       if (s.nempty()) s+= ", ";
       else s+= "; ";
-      s.appendf("[0x%04x]=0x%04x", sa, rom->read(sa));
+      s.appendf("[0x%04x]=0x%04x", sa, rom->get(sa));
     }
   else if (src==7)
     {
       if (s.nempty()) s+= ", ";
       else s+= "; ";
-      s.appendf("[src=0x%04x]=0x%04x", rA, rom->read(rA));
+      s.appendf("[src=0x%04x]=0x%04x", rA, rom->get(rA));
     }
   else
     {
       if (s.nempty()) s+= ", ";
       else s+= "; ";
-      s.appendf("[src=0x%04x]=0x%04x", src, rom->read(src));
+      s.appendf("[src=0x%04x]=0x%04x", src, rom->get(src));
     }
   return s;
 }
diff --git a/src/sims/oisc.src/oisc.cc b/src/sims/oisc.src/oisc.cc
index a964bb5..a4998ad 100644
--- a/src/sims/oisc.src/oisc.cc
+++ b/src/sims/oisc.src/oisc.cc
@@ -140,8 +140,8 @@ cl_oisc::disassc(t_addr addr, chars *comment)
   u16_t src, dst;
   u16_t a;
 
-  src= rom->read(addr);
-  dst= rom->read(addr+1);
+  src= rom->get(addr);
+  dst= rom->get((addr+1) & 0xffff);
   
   b= "mov %d,%s";
 
@@ -263,7 +263,7 @@ cl_oisc::exec_inst(void)
 void
 cl_oisc::print_acc(class cl_console_base *con)
 {
-  u16_t v= rom->read(rA);
+  u16_t v= rom->get(rA);
   con->dd_color("answer");
   con->dd_printf("A= %04x %5u %+5d ", rA, rA, (i16_t)rA);
   con->dd_printf(" [A]= %04x %5u %+5d ", v, v, (i16_t)v);
diff --git a/src/sims/oisc.src/urisc.cc b/src/sims/oisc.src/urisc.cc
index 2d4e5b2..6850318 100644
--- a/src/sims/oisc.src/urisc.cc
+++ b/src/sims/oisc.src/urisc.cc
@@ -146,7 +146,7 @@ cl_urisc::dis_comment(t_addr src, t_addr dst)
   if ((dst >= 0xfff0) && (dst <= 0xfff7) &&
       ((src < 0xfff0) || (src > 0xfff7)) &&
       (src != 0xffff))
-    s.appendf("; 0x%04x", rom->read(src));
+    s.appendf("; 0x%04x", rom->get(src));
   return s;
 }
 
-- 
2.43.0


From 7e8e761b827f697851d357a80ffbf30754cc3fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:02 +0000
Subject: [PATCH 044/119] fix: p1516 time passes at breakpoint

---
 src/sims/p1516.src/p1516.cc | 4 ++--
 src/sims/p1516.src/p2223.cc | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sims/p1516.src/p1516.cc b/src/sims/p1516.src/p1516.cc
index 09cc13d..12ce473 100644
--- a/src/sims/p1516.src/p1516.cc
+++ b/src/sims/p1516.src/p1516.cc
@@ -561,10 +561,10 @@ cl_p1516::exec_inst(void)
   PC= R[15];
   instPC= PC;
   fe= fetch(&code);
-  tick(1);
-  R[15]= PC;
   if (fe)
     return(resBREAKPOINT);
+  tick(1);
+  R[15]= PC;
 
   if (!cond(code))
     return resGO;
diff --git a/src/sims/p1516.src/p2223.cc b/src/sims/p1516.src/p2223.cc
index edd4024..79f709e 100644
--- a/src/sims/p1516.src/p2223.cc
+++ b/src/sims/p1516.src/p2223.cc
@@ -909,10 +909,10 @@ CLP2::exec_inst(void)
   instPC= PC;
   fe= fetch(&code);
   //if (dbg_reg) fprintf(stderr, "F: %08x %08x %08x\n", instPC, code, F);
-  tick(4);
-  R[15]= PC;
   if (fe)
     return(resBREAKPOINT);
+  tick(4);
+  R[15]= PC;
 
   if (!cond(code))
     return resGO;
-- 
2.43.0


From fa99c56177b8ef67a8b18cbf097bf8d6d0e40fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:04 +0000
Subject: [PATCH 045/119] fix: p2223 constant special registers are 0 until
 first accessed

---
 src/sims/p1516.src/p2223.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims/p1516.src/p2223.cc b/src/sims/p1516.src/p2223.cc
index 79f709e..3f29c86 100644
--- a/src/sims/p1516.src/p2223.cc
+++ b/src/sims/p1516.src/p2223.cc
@@ -173,6 +173,7 @@ CLP2::make_memories(void)
     {
       class cl_memory_cell *c= sfr->get_cell(i);
       c->append_operator(new cl_sfr_op(c, this, i));
+      c->read();
     }
 
   cl_cvar *v;
-- 
2.43.0


From 6217c7263c80dd279c13c294f45e562ab754e8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:11 +0000
Subject: [PATCH 046/119] fix: pdk simulator hangs when program enables missing
 FPP only

---
 src/sims/pdk.src/pdk.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/pdk.src/pdk.cc b/src/sims/pdk.src/pdk.cc
index 57ece93..11d46a0 100644
--- a/src/sims/pdk.src/pdk.cc
+++ b/src/sims/pdk.src/pdk.cc
@@ -863,8 +863,6 @@ cl_pdk::set_fppen(u8_t val)
 {
   int i, n;
   u8_t m;
-  if (val == 0)
-    val= 1;
   for (i=0, m=1, n=0; i<8; i++, m<<=1)
     {
       if (fpps[i] == NULL)
@@ -872,6 +870,8 @@ cl_pdk::set_fppen(u8_t val)
       else
 	n++;
     }
+  if (val == 0)
+    val= 1;
   single= n==1;
   return val;
 }
-- 
2.43.0


From 658701e527ca00d65c545ceff1e8a4f0c5d6084e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:32 +0000
Subject: [PATCH 047/119] fix: xa simulator does not start

---
 src/sims/xa.src/sxa.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims/xa.src/sxa.cc b/src/sims/xa.src/sxa.cc
index 7ec770f..90baed0 100644
--- a/src/sims/xa.src/sxa.cc
+++ b/src/sims/xa.src/sxa.cc
@@ -43,6 +43,7 @@ main(int argc, char *argv[])
   class cl_sim *sim;
 
   app_start_at= dnow();
+  cpus= cpus_xa;
   application= new cl_app();
   application->set_name("sxa");
   application->init(argc, argv);
-- 
2.43.0


From ccd5ff7d6d27b12be7295237d7f1dc8b83934012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:27 +0000
Subject: [PATCH 048/119] fix: stm8 uart status read is forgotten when
 simulator variable is inspected

---
 src/sims/stm8.src/serial.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sims/stm8.src/serial.cc b/src/sims/stm8.src/serial.cc
index 5a44b59..18166e5 100644
--- a/src/sims/stm8.src/serial.cc
+++ b/src/sims/stm8.src/serial.cc
@@ -163,8 +163,9 @@ cl_serial::read(class cl_memory_cell *cell)
       cfg_set(serconf_able_receive, 1);
       return s_in;
     }
+  if (conf(cell, NULL))
+    return cell->get();
   sr_read= (cell == regs[sr]);
-  conf(cell, NULL);
   return cell->get();
 }
 
-- 
2.43.0


From cc7b0cde1cddcc18abec0856ce2cbb7441aba4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:45 +0000
Subject: [PATCH 049/119] fix: stm8 timer variable shown out of date

---
 src/sims/stm8.src/timer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/stm8.src/timer.cc b/src/sims/stm8.src/timer.cc
index 3221591..55c1b41 100644
--- a/src/sims/stm8.src/timer.cc
+++ b/src/sims/stm8.src/timer.cc
@@ -192,7 +192,7 @@ cl_tim::read(class cl_memory_cell *cell)
   t_addr a;
   
   if (conf(cell, NULL))
-    return v;
+    return cell->get();
   if (!uc->rom->is_owned(cell, &a))
     return v;
   if ((a < base) ||
-- 
2.43.0


From 1bc4f66332ace0318b9dafe95b45cc130a475056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:57 +0000
Subject: [PATCH 050/119] fix: rxk breakpoint after prefix discards the prefix

---
 src/sims/rxk.src/rxk.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sims/rxk.src/rxk.cc b/src/sims/rxk.src/rxk.cc
index 216df96..631f6f8 100644
--- a/src/sims/rxk.src/rxk.cc
+++ b/src/sims/rxk.src/rxk.cc
@@ -784,6 +784,10 @@ cl_rxk::exec_inst(void)
   t_mem code;
   int res= resGO;
 
+  instPC= PC;
+  if (fetch(&code))
+    return resBREAKPOINT;
+
   if (!prefix)
     {
       rwas= rom;
@@ -792,9 +796,6 @@ cl_rxk::exec_inst(void)
   prefix= false;
   atomic= false;
   
-  instPC= PC;
-  if (fetch(&code))
-    return resBREAKPOINT;
   tick(1);
   if (code == 0xed)
     {
-- 
2.43.0


From 1f8c1e63c854723a4aea3260d1c164fb4e61d0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:46 +0000
Subject: [PATCH 051/119] fix: stm8 cpu and uid variables shown out of date

---
 src/sims/stm8.src/uid.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/stm8.src/uid.cc b/src/sims/stm8.src/uid.cc
index d782e95..da3a964 100644
--- a/src/sims/stm8.src/uid.cc
+++ b/src/sims/stm8.src/uid.cc
@@ -69,7 +69,7 @@ cl_uid::read(class cl_memory_cell *cell)
   t_mem v= cell->get();
   
   if (conf(cell, NULL))
-    return v;
+    return cell->get();
 
   return v;
 }
-- 
2.43.0


From 9ce46b085e3c973ded1258863e9d8d72d7e83d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:33 +0000
Subject: [PATCH 052/119] fix: rxk memory mapping register is used
 uninitialized

---
 src/sims/rxk.src/rmem.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims/rxk.src/rmem.cc b/src/sims/rxk.src/rmem.cc
index b8238c7..e2d8444 100644
--- a/src/sims/rxk.src/rmem.cc
+++ b/src/sims/rxk.src/rmem.cc
@@ -34,6 +34,7 @@ cl_ras::cl_ras(chars id, class cl_memory_chip *achip):
   segsize= 0xff;
   dataseg= 0;
   stackseg= 0;
+  xpc.lxpc= 0;
 }
 
 int
-- 
2.43.0


From 873d1a874ee060eda2aa9fe252d87d62cb236da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:15 +0000
Subject: [PATCH 053/119] fix: lists longer than 8192 items corrupt memory

---
 src/core/utils.src/pobj.cc | 2 +-
 src/core/utils.src/pobjt.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/utils.src/pobj.cc b/src/core/utils.src/pobj.cc
index 89dd9c9..189ca36 100644
--- a/src/core/utils.src/pobj.cc
+++ b/src/core/utils.src/pobj.cc
@@ -384,7 +384,7 @@ cl_list::add_at(t_index index, void *item)
   if (index < 0 )
     error(1, 0);
   if (count == Limit)
-    set_limit(count + Delta);
+    set_limit(count + Delta + count/2);
 
   memmove(&Items[index+1], &Items[index], (count-index)*sizeof(void *));
   count++;
diff --git a/src/core/utils.src/pobjt.h b/src/core/utils.src/pobjt.h
index 0f5238f..7287c80 100644
--- a/src/core/utils.src/pobjt.h
+++ b/src/core/utils.src/pobjt.h
@@ -35,7 +35,7 @@ typedef int	t_index;
 typedef int	(*match_func)(const void *, const void *);
 typedef void	(*iterator_func)(const void *, const void *);
 
-#define max_list_size (0x10000/sizeof(void *))
+#define max_list_size (0x7fffffff/sizeof(void *))
 #define ccNotFound -1
 
 
-- 
2.43.0


From ff2f81dee2c148c4ed314fb1775dca720f2bfcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:03 +0000
Subject: [PATCH 054/119] fix: disassembling and register display read memory
 without side effects

---
 src/core/motorola.src/m6800.cc    |  20 ++--
 src/sims/f8.src/disass.cc         |  36 +++----
 src/sims/f8.src/f8.cc             |   2 +-
 src/sims/i8048.src/i8020.cc       |   8 +-
 src/sims/i8085.src/i8080.cc       |  24 ++---
 src/sims/i8085.src/i8085.cc       |   4 +-
 src/sims/m68hc12.src/dis.cc       | 154 +++++++++++++++---------------
 src/sims/mos6502.src/huc6280.cc   |   2 +-
 src/sims/mos6502.src/mos6502.cc   |  90 ++++++++---------
 src/sims/mos6502.src/mos65ce02.cc |   2 +-
 src/sims/oisc.src/oisc.cc         |   2 +-
 src/sims/rxk.src/r3ka.cc          |  10 +-
 src/sims/rxk.src/r4k.cc           |  14 +--
 src/sims/rxk.src/r6k.cc           |   6 +-
 src/sims/rxk.src/rxk.cc           |  70 +++++++-------
 src/sims/z80.src/ez80.cc          |   8 +-
 src/sims/z80.src/gb80.cc          |  12 +--
 src/sims/z80.src/r800.cc          |   4 +-
 src/sims/z80.src/z80.cc           |  26 ++---
 19 files changed, 247 insertions(+), 247 deletions(-)

diff --git a/src/core/motorola.src/m6800.cc b/src/core/motorola.src/m6800.cc
index 629d145..4aba681 100644
--- a/src/core/motorola.src/m6800.cc
+++ b/src/core/motorola.src/m6800.cc
@@ -371,7 +371,7 @@ cl_m6800::disassc(t_addr addr, chars *comment)
   if (dis_e->mnemonic == NULL)
     return strdup("-- UNKNOWN/INVALID");
   b= dis_e->mnemonic;
-  u8_t code= rom->read(addr);
+  u8_t code= rom->get(addr);
   if (code == 0x18) { addr++; }
   if (code == 0x1a) { addr++; }
   if (code == 0xcd) { addr++; }
@@ -394,40 +394,40 @@ cl_m6800::disassc(t_addr addr, chars *comment)
 	  switch (b[i])
 	    {
 	    case 'x': case 'X': // indexed
-	      h= rom->read(++addr);
+	      h= rom->get(++addr);
 	      a= cI->get()+h;
 	      work.appendf("$%02x,%s", h, cI->name.c_str());
 	      //add_spaces(&work, 20);
 	      if (b[i]=='x')
-		temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+		temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      else
 		temp.appendf("; [$%04x]=$%04x", a, read_addr(rom, a));
 	      break;
 	    case 'e': case 'E': // extended
-	      h= rom->read(++addr);
-	      l= rom->read(++addr);
+	      h= rom->get(++addr);
+	      l= rom->get(++addr);
 	      a= h*256 + l;
 	      work.appendf("$%04x", a);
 	      //add_spaces(&work, 20);
 	      if (b[i]=='e')
-		temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+		temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      else
 		temp.appendf("; [$%04x]=$%04x", a,
 			     read_addr(rom, a));
 	      break;
 	    case 'd': case 'D': // direct
-	      h= a= rom->read(++addr);
+	      h= a= rom->get(++addr);
 	      work.appendf("$00%02x", h);
 	      //add_spaces(&work, 20);
 	      if (b[i]=='d')
-		temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+		temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      else
 	        temp.appendf("; [$%04x]=$%04x", a,
 			     read_addr(rom, a));
 	      break;
 	    case 'b': // immediate 8 bit
 	      work.appendf("#$%02x",
-			   rom->read(++addr));
+			   rom->get(++addr));
 	      break;
 	    case 'B': // immediate 16 bit
 	      work.appendf("#$%04x",
@@ -435,7 +435,7 @@ cl_m6800::disassc(t_addr addr, chars *comment)
 	      break;
 	    case 'r': // relative
 	      work.appendf("$%04x",
-			   (addr+2+(i8_t)(rom->read(addr+1))) & 0xffff );
+			   (addr+2+(i8_t)(rom->get(addr+1))) & 0xffff );
 	      addr++;
 	      break;
 	    }
diff --git a/src/sims/f8.src/disass.cc b/src/sims/f8.src/disass.cc
index 638c336..84c4a71 100644
--- a/src/sims/f8.src/disass.cc
+++ b/src/sims/f8.src/disass.cc
@@ -167,7 +167,7 @@ cl_f8::disassc(t_addr addr, chars *comment)
   u16_t a, nn;
   i16_t d;
   
-  code= rom->read(addr);
+  code= rom->get(addr);
   while (code == PREF_SWAPOP || code == PREF_ALT1 || code == PREF_ALT2 || code == PREF_ALT3 || code == PREF_ALT4 || code == PREF_ALT5)
     {
       switch (code) {
@@ -190,10 +190,10 @@ cl_f8::disassc(t_addr addr, chars *comment)
         prefs = P_ALT5;
         break;
       }
-      code= rom->read(++addr);
+      code= rom->get(++addr);
     }
   de= get_dis_entry(addr);
-  //code= rom->read(addr);
+  //code= rom->get(addr);
   
   if (!de || !de->mnemonic)
     return strdup("-- UNKNOWN/INVALID");
@@ -225,7 +225,7 @@ cl_f8::disassc(t_addr addr, chars *comment)
 	    word->append("'");
 	  if (strcmp(fmt.c_str(), "i8") == 0)
 	    {
-	      word->appendf("0x%02x", rom->read(addr+1));
+	      word->appendf("0x%02x", rom->get(addr+1));
 	    }
 	  if (strcmp(fmt.c_str(), "i16") == 0)
 	    {
@@ -240,7 +240,7 @@ cl_f8::disassc(t_addr addr, chars *comment)
 	    {
 	      a= read_addr(rom, addr+1);
 	      word->appendf("0x%04x", a);
-	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->read(a));
+	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->get(a));
 	    }
 	  if (strcmp(fmt.c_str(), "a16_16") == 0)
 	    {
@@ -255,21 +255,21 @@ cl_f8::disassc(t_addr addr, chars *comment)
 	      if (bc && bc>='0' && bc<='7') b= bc-'0';
 	      a= read_addr(rom, addr+1);
 	      word->appendf("0x%04x", a);
-	      l= rom->read(a);
+	      l= rom->get(a);
 	      h= l&(1<<b);
 	      comment->appendf("; [0x%04x]= 0x%02x.%d=%d", a, l, b, h?1:0);
 	    }
 	  if (strcmp(fmt.c_str(), "nsp_8") == 0)
 	    {
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      a= rSP+l;
 	      a&= 0xffff;
 	      word->appendf("0x%02x,sp", l);
-	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->read(a));
+	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->get(a));
 	    }
 	  if (strcmp(fmt.c_str(), "nsp_16") == 0)
 	    {
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      a= rSP+l;
 	      a&= 0xffff;
 	      word->appendf("0x%02x,sp", l);
@@ -281,7 +281,7 @@ cl_f8::disassc(t_addr addr, chars *comment)
 	      a= nn+rZ;
 	      a&= 0xffff;
 	      word->appendf("0x%04x,z", nn);
-	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->read(a));
+	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->get(a));
 	    }
 	  if (strcmp(fmt.c_str(), "nnz_16") == 0)
 	    {
@@ -296,7 +296,7 @@ cl_f8::disassc(t_addr addr, chars *comment)
 	      a= rZ;
 	      a&= 0xffff;
 	      word->appendf("z");
-	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->read(a));
+	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->get(a));
 	    }
 	  if (strcmp(fmt.c_str(), "z_16") == 0)
 	    {
@@ -309,7 +309,7 @@ cl_f8::disassc(t_addr addr, chars *comment)
 	    {
 	      a= rY;
 	      word->appendf("y");
-	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->read(a));
+	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->get(a));
 	    }
 	  if (strcmp(fmt.c_str(), "y_16") == 0)
 	    {
@@ -319,15 +319,15 @@ cl_f8::disassc(t_addr addr, chars *comment)
 	    }
 	  if (strcmp(fmt.c_str(), "ny_8") == 0)
 	    {
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      a= rY+l;
 	      a&= 0xffff;
 	      word->appendf("0x%02x,y", l);
-	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->read(a));
+	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->get(a));
 	    }
 	  if (strcmp(fmt.c_str(), "ny_16") == 0)
 	    {
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      a= rY+l;
 	      a&= 0xffff;
 	      word->appendf("0x%02x,sp", l);
@@ -335,7 +335,7 @@ cl_f8::disassc(t_addr addr, chars *comment)
 	    }
 	  if (strcmp(fmt.c_str(), "nA_16") == 0)
 	    {
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      a= a16(prefs)+l;
 	      a&= 0xffff;
 	      word->appendf("0x%02x,%s", l, a16_name(prefs));
@@ -379,13 +379,13 @@ cl_f8::disassc(t_addr addr, chars *comment)
 	      break;
 
 	    case 'd':
-	      d= rom->read(addr+1);
+	      d= rom->get(addr+1);
 	      if (d&0x80) d|= 0xff00;
 	      word->appendf("%+d", d);
 	      break;
 
 	    case 'r':
-	      d= rom->read(addr+1);
+	      d= rom->get(addr+1);
 	      if (d&0x80) d|= 0xff00;
 	      a= addr+2+d;
 	      word->appendf("0x%04x", a);
diff --git a/src/sims/f8.src/f8.cc b/src/sims/f8.src/f8.cc
index 44a30df..db33011 100644
--- a/src/sims/f8.src/f8.cc
+++ b/src/sims/f8.src/f8.cc
@@ -168,7 +168,7 @@ cl_f8::print_regs(class cl_console_base *con)
       t_addr al;
       al= (rSP+i)&0xffff;
       con->dd_cprintf("dump_number", " %02x",
-		      (u8_t)(rom->read(al)));
+		      (u8_t)(rom->get(al)));
     }
   con->dd_printf("\n");
   
diff --git a/src/sims/i8048.src/i8020.cc b/src/sims/i8048.src/i8020.cc
index e985e03..64ae65e 100644
--- a/src/sims/i8048.src/i8020.cc
+++ b/src/sims/i8048.src/i8020.cc
@@ -371,7 +371,7 @@ cl_i8020::disassc(t_addr addr, chars *comment)
   u16_t a;
 
   de= get_dis_entry(addr);
-  code= rom->read(addr);
+  code= rom->get(addr);
   
   if (!de || !de->mnemonic)
     return strdup("-- UNKNOWN/INVALID");
@@ -398,18 +398,18 @@ cl_i8020::disassc(t_addr addr, chars *comment)
 	    work.append("'");
 	  if (strcmp(fmt.c_str(), "i8") == 0)
 	    {
-	      work.appendf("#0x%02x", rom->read(addr+1));
+	      work.appendf("#0x%02x", rom->get(addr+1));
 	    }
 	  if (strcmp(fmt.c_str(), "a8") == 0)
 	    {
 	      a= addr & 0xf00;
-	      a|= rom->read(addr+1);
+	      a|= rom->get(addr+1);
 	      work.appendf("0x%04x", a);
 	    }
 	  if (strcmp(fmt.c_str(), "a11") == 0)
 	    {
 	      a= (code&0xe0)<<3;
-	      a+= rom->read(addr+1);
+	      a+= rom->get(addr+1);
 	      work.appendf("P.0x%04x", a);
 	      if (A11) a|= 0x800;
 	      temp.format("; %04x", a);
diff --git a/src/sims/i8085.src/i8080.cc b/src/sims/i8085.src/i8080.cc
index fc081e6..aa889f0 100644
--- a/src/sims/i8085.src/i8080.cc
+++ b/src/sims/i8085.src/i8080.cc
@@ -245,7 +245,7 @@ cl_i8080::dis_rp8(chars *comment, int rp)
     }
   if (comment->empty())
     *comment= "; ";
-  comment->appendf("[0x%04x]= 0x%02x", a, rom->read(a));
+  comment->appendf("[0x%04x]= 0x%02x", a, rom->get(a));
 }
 
 void
@@ -276,7 +276,7 @@ cl_i8080::disassc(t_addr addr, chars *comment)
   u16_t a;
 
   de= get_dis_entry(addr);
-  code= rom->read(addr);
+  code= rom->get(addr);
   
   if (!de || !de->mnemonic)
     return strdup("-- UNKNOWN/INVALID");
@@ -313,19 +313,19 @@ cl_i8080::disassc(t_addr addr, chars *comment)
 	    }
 	  if (strcmp(fmt.c_str(), "i8") == 0)
 	    {
-	      work.appendf("0x%02x", rom->read(addr+1));
+	      work.appendf("0x%02x", rom->get(addr+1));
 	    }
 	  if (strcmp(fmt.c_str(), "hli8") == 0)
 	    {
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      work.appendf("0x%02x", l);
-	      comment->appendf("; [0x%04x]= 0x%02x", rHL+l, rom->read(rHL+l));
+	      comment->appendf("; [0x%04x]= 0x%02x", rHL+l, rom->get(rHL+l));
 	    }
 	  if (strcmp(fmt.c_str(), "spi8") == 0)
 	    {
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      work.appendf("0x%02x", l);
-	      comment->appendf("; [0x%04x]= 0x%02x", rSP+l, rom->read(rSP+l));
+	      comment->appendf("; [0x%04x]= 0x%02x", rSP+l, rom->get(rSP+l));
 	    }
 	  if (strcmp(fmt.c_str(), "i16") == 0)
 	    {
@@ -360,7 +360,7 @@ cl_i8080::disassc(t_addr addr, chars *comment)
 	    {
 	      a= read_addr(rom, addr+1);
 	      work.appendf("0x%04x", a);
-	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->read(a));
+	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->get(a));
 	    }
 	  if (strcmp(fmt.c_str(), "a16_16") == 0)
 	    {
@@ -380,12 +380,12 @@ cl_i8080::disassc(t_addr addr, chars *comment)
 	    }
 	  if (strcmp(fmt.c_str(), "in") == 0)
 	    {
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      work.appendf("0x%02x", l);
 	    }
 	  if (strcmp(fmt.c_str(), "out") == 0)
 	    {
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      work.appendf("0x%02x", l);
 	    }
 	  continue;
@@ -435,8 +435,8 @@ cl_i8080::print_regs(class cl_console_base *con)
       al= (rSP+i)&0xffff;
       ah= (al+1)&0xffff;
       con->dd_cprintf("dump_number", " %02x%02x",
-		      (u8_t)(rom->read(al)),
-		      (u8_t)(rom->read(ah)));
+		      (u8_t)(rom->get(al)),
+		      (u8_t)(rom->get(ah)));
     }
   con->dd_printf("\n");
   
diff --git a/src/sims/i8085.src/i8085.cc b/src/sims/i8085.src/i8085.cc
index 6c63c08..6d1485e 100644
--- a/src/sims/i8085.src/i8085.cc
+++ b/src/sims/i8085.src/i8085.cc
@@ -178,8 +178,8 @@ cl_i8085::print_regs(class cl_console_base *con)
       al= (rSP+i)&0xffff;
       ah= (al+1)&0xffff;
       con->dd_cprintf("dump_number", " %02x%02x",
-		      (u8_t)(rom->read(al)),
-		      (u8_t)(rom->read(ah)));
+		      (u8_t)(rom->get(al)),
+		      (u8_t)(rom->get(ah)));
     }
   con->dd_printf("\n");
   
diff --git a/src/sims/m68hc12.src/dis.cc b/src/sims/m68hc12.src/dis.cc
index d9a207e..6b4ce50 100644
--- a/src/sims/m68hc12.src/dis.cc
+++ b/src/sims/m68hc12.src/dis.cc
@@ -75,7 +75,7 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
   int i;
   bool first;
 
-  if (rom->read(addr) == 0x04)
+  if (rom->get(addr) == 0x04)
     {
       addr++;
       return disass_loop(&addr, &work, comment);
@@ -87,7 +87,7 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
     return strdup("-- UNKNOWN/INVALID");
   b= dis_e->mnemonic;
 
-  if (rom->read(addr) == 0x18)
+  if (rom->get(addr) == 0x18)
     addr++;
 
   first= true;
@@ -111,9 +111,9 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	  if (strcmp(fmt.c_str(), "ep") == 0)
 	    {
 	      u8_t h, l, p;
-	      h= rom->read(addr+1);
-	      l= rom->read(addr+2);
-	      p= rom->read(addr+3);
+	      h= rom->get(addr+1);
+	      l= rom->get(addr+2);
+	      p= rom->get(addr+3);
 	      work.appendf("$%04x", h*256+l);
 	      work.append(",");
 	      work.appendf("$%02x", p);
@@ -121,11 +121,11 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	  if (strcmp(fmt.c_str(), "ip") == 0)
 	    {
 	      t_addr a= addr+1;
-	      u8_t xb= rom->read(a);
+	      u8_t xb= rom->get(a);
 	      disass_xb(&a, &work, comment, 3);
 	      if (!xb_indirect(xb))
 		{
-		  u8_t p= rom->read(a);
+		  u8_t p= rom->get(a);
 		  work.append(",");
 		  work.appendf("$%02x", p);
 		}
@@ -133,10 +133,10 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	  if (strcmp(fmt.c_str(), "IMID") == 0)
 	    {
 	      t_addr a= (addr+=2);
-	      u8_t h, l, xb= rom->read(a);
+	      u8_t h, l, xb= rom->get(a);
 	      addr++;
-	      h= rom->read(addr++);
-	      l= rom->read(addr++);
+	      h= rom->get(addr++);
+	      l= rom->get(addr++);
 	      work.appendf("#$%04x", h*256+l);
 	      work.append(", ");
 	      disass_xb(&a, &work, comment, 2, xb_PC(xb)?2:0);
@@ -144,9 +144,9 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	  if (strcmp(fmt.c_str(), "imid") == 0)
 	    {
 	      t_addr a= (addr+=2);
-	      u8_t h, xb= rom->read(a);
+	      u8_t h, xb= rom->get(a);
 	      addr++;
-	      h= rom->read(addr++);
+	      h= rom->get(addr++);
 	      work.appendf("#$%02x", h);
 	      work.append(", ");
 	      disass_xb(&a, &work, comment, 1, xb_PC(xb)?1:0);
@@ -154,27 +154,27 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	  if (strcmp(fmt.c_str(), "EXID") == 0)
 	    {
 	      t_addr aof_xb= (addr+=2), asrc;
-	      u8_t h, l, xb= rom->read(aof_xb);
+	      u8_t h, l, xb= rom->get(aof_xb);
 	      addr++;
-	      h= rom->read(addr++);
-	      l= rom->read(addr++);
+	      h= rom->get(addr++);
+	      l= rom->get(addr++);
 	      asrc= h*256+l;
 	      work.appendf("$%04x", asrc);
 	      work.append(", ");
-	      comment->appendf("; [%04x]=%04x",asrc,rom->read(asrc)*256+rom->read(asrc+1));
+	      comment->appendf("; [%04x]=%04x",asrc,rom->get(asrc)*256+rom->get(asrc+1));
 	      disass_xb(&aof_xb, &work, comment, 2, xb_PC(xb)?2:0);
 	    }
 	  if (strcmp(fmt.c_str(), "exid") == 0)
 	    {
 	      t_addr aof_xb= (addr+=2), asrc;
-	      u8_t h, l, xb= rom->read(aof_xb);
+	      u8_t h, l, xb= rom->get(aof_xb);
 	      addr++;
-	      h= rom->read(addr++);
-	      l= rom->read(addr++);
+	      h= rom->get(addr++);
+	      l= rom->get(addr++);
 	      asrc= h*256+l;
 	      work.appendf("$%04x", asrc);
 	      work.append(", ");
-	      comment->appendf("; [%04x]=%02x",asrc,rom->read(asrc));
+	      comment->appendf("; [%04x]=%02x",asrc,rom->get(asrc));
 	      disass_xb(&aof_xb, &work, comment, 1, xb_PC(xb)?2:0);
 	    }
 	  if (strcmp(fmt.c_str(), "IDID") == 0)
@@ -182,8 +182,8 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	      t_addr aof_xbsrc= (addr+=2);
 	      t_addr aof_xbdst= (addr+=1);
 	      u8_t xbsrc, xbdst;
-	      xbsrc= rom->read(aof_xbsrc);
-	      xbdst= rom->read(aof_xbdst);
+	      xbsrc= rom->get(aof_xbsrc);
+	      xbdst= rom->get(aof_xbdst);
 	      disass_xb(&aof_xbsrc, &work, comment, 2, xb_PC(xbsrc)?-1:0);
 	      work.append(", ");
 	      disass_xb(&aof_xbdst, &work, comment, 2, xb_PC(xbdst)?1:0);
@@ -193,84 +193,84 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	      t_addr aof_xbsrc= (addr+=2);
 	      t_addr aof_xbdst= (addr+=1);
 	      u8_t xbsrc, xbdst;
-	      xbsrc= rom->read(aof_xbsrc);
-	      xbdst= rom->read(aof_xbdst);
+	      xbsrc= rom->get(aof_xbsrc);
+	      xbdst= rom->get(aof_xbdst);
 	      disass_xb(&aof_xbsrc, &work, comment, 1, xb_PC(xbsrc)?-1:0);
 	      work.append(", ");
 	      disass_xb(&aof_xbdst, &work, comment, 1, xb_PC(xbdst)?1:0);
 	    }
 	  if (strcmp(fmt.c_str(), "IMEX") == 0)
 	    {
-	      u16_t i= read_addr(rom, addr+2);
-	      u16_t e= read_addr(rom, addr+4);
+	      u16_t i= (rom->get(addr+2)*256 + rom->get(addr+2+1));
+	      u16_t e= (rom->get(addr+4)*256 + rom->get(addr+4+1));
 	      work.appendf("#$%04x", i);
 	      work.append(", ");
 	      work.appendf("$%04x", e);
-	      comment->appendf("; [%04x]=%04x", e, read_addr(rom, e));
+	      comment->appendf("; [%04x]=%04x", e, (rom->get(e)*256 + rom->get(e+1)));
 	    }
 	  if (strcmp(fmt.c_str(), "imex") == 0)
 	    {
-	      u8_t i= rom->read(addr+2);
-	      u16_t e= read_addr(rom, addr+3);
+	      u8_t i= rom->get(addr+2);
+	      u16_t e= (rom->get(addr+3)*256 + rom->get(addr+3+1));
 	      work.appendf("#$%02x", i);
 	      work.append(", ");
 	      work.appendf("$%04x", e);
-	      comment->appendf("; [%04x]=%02x", e, rom->read(e));
+	      comment->appendf("; [%04x]=%02x", e, rom->get(e));
 	    }
 	  if (strcmp(fmt.c_str(), "EXEX") == 0)
 	    {
-	      u16_t s= read_addr(rom, addr+2);
-	      u16_t d= read_addr(rom, addr+4);
+	      u16_t s= (rom->get(addr+2)*256 + rom->get(addr+2+1));
+	      u16_t d= (rom->get(addr+4)*256 + rom->get(addr+4+1));
 	      work.appendf("$%04x", s);
 	      work.append(", ");
 	      work.appendf("$%04x", d);
 	      comment->appendf("; [%04x]=%04x [%04x]=%04x",
-			       s, read_addr(rom, s),
-			       d, read_addr(rom, d));
+			       s, (rom->get(s)*256 + rom->get(s+1)),
+			       d, (rom->get(d)*256 + rom->get(d+1)));
 	    }
 	  if (strcmp(fmt.c_str(), "exex") == 0)
 	    {
-	      u16_t s= read_addr(rom, addr+2);
-	      u16_t d= read_addr(rom, addr+4);
+	      u16_t s= (rom->get(addr+2)*256 + rom->get(addr+2+1));
+	      u16_t d= (rom->get(addr+4)*256 + rom->get(addr+4+1));
 	      work.appendf("$%04x", s);
 	      work.append(", ");
 	      work.appendf("$%04x", d);
 	      comment->appendf("; [%04x]=%02x [%04x]=%02x",
-			       s, rom->read(s),
-			       d, rom->read(d));
+			       s, rom->get(s),
+			       d, rom->get(d));
 	    }
 	  if (strcmp(fmt.c_str(), "IDEX") == 0)
 	    {
 	      t_addr aof_xb= (addr+=2), adst;
-	      u8_t h, l, xb= rom->read(aof_xb);
+	      u8_t h, l, xb= rom->get(aof_xb);
 	      addr++;
-	      h= rom->read(addr++);
-	      l= rom->read(addr++);
+	      h= rom->get(addr++);
+	      l= rom->get(addr++);
 	      disass_xb(&aof_xb, &work, comment, 2, xb_PC(xb)?-2:0);
 	      work.append(", ");
 	      work.appendf("$%04x", adst= h*256+l);
-	      comment->appendf(" [%04x]=%04x", adst, read_addr(rom,adst));
+	      comment->appendf(" [%04x]=%04x", adst, (rom->get(adst)*256 + rom->get(adst+1)));
 	    }
 	  if (strcmp(fmt.c_str(), "idex") == 0)
 	    {
 	      t_addr aof_xb= (addr+=2), adst;
-	      u8_t h, l, xb= rom->read(aof_xb);
+	      u8_t h, l, xb= rom->get(aof_xb);
 	      addr++;
-	      h= rom->read(addr++);
-	      l= rom->read(addr++);
+	      h= rom->get(addr++);
+	      l= rom->get(addr++);
 	      disass_xb(&aof_xb, &work, comment, 1, xb_PC(xb)?-2:0);
 	      work.append(", ");
 	      work.appendf("$%04x", adst= h*256+l);
-	      comment->appendf(" [%04x]=%02x", adst, rom->read(adst));
+	      comment->appendf(" [%04x]=%02x", adst, rom->get(adst));
 	    }
 	  if (strcmp(fmt.c_str(), "em") == 0) // EMACS
 	    {
-	      u16_t a= read_addr(rom, addr+2);
-	      u32_t m= (read_addr(rom, a)<<16) + (read_addr(rom, a+2));
+	      u16_t a= (rom->get(addr+2)*256 + rom->get(addr+2+1));
+	      u32_t m= ((rom->get(a)*256 + rom->get(a+1))<<16) + ((rom->get(a+2)*256 + rom->get(a+2+1)));
 	      work.appendf("$%04x", a);
 	      comment->appendf("; [X=%04x]=%04x,%+d [Y=%04x]=%04x,%+d [%04x]=%08x,%+d",
-			       rX, read_addr(rom, rX), (int)read_addr(rom, rX),
-			       rY, read_addr(rom, rY), (int)read_addr(rom, rY),
+			       rX, (rom->get(rX)*256 + rom->get(rX+1)), (int)(rom->get(rX)*256 + rom->get(rX+1)),
+			       rY, (rom->get(rY)*256 + rom->get(rY+1)), (int)(rom->get(rY)*256 + rom->get(rY+1)),
 			       a, m, int(m));
 	    }
 	  continue;
@@ -284,54 +284,54 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	  switch (b[i])
 	    {
 	    case 'x': case 'X': // indexed
-	      h= rom->read(addr+1);
+	      h= rom->get(addr+1);
 	      a= rX+h;
 	      work.appendf("$%02x,X", h);
 	      //add_spaces(&work, 20);
 	      if (b[i]=='x')
-		temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+		temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      else
-		temp.appendf("; [$%04x]=$%04x", a, read_addr(rom, a));
+		temp.appendf("; [$%04x]=$%04x", a, (rom->get(a)*256 + rom->get(a+1)));
 	      break;
 	    case 'e': case 'E': // extended
-	      h= rom->read(addr+1);
-	      l= rom->read(addr+2);
+	      h= rom->get(addr+1);
+	      l= rom->get(addr+2);
 	      a= h*256 + l;
 	      work.appendf("$%04x", a);
 	      //add_spaces(&work, 20);
 	      if (b[i]=='e')
-		temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+		temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      else
 		temp.appendf("; [$%04x]=$%04x", a,
-			     read_addr(rom, a));
+			     (rom->get(a)*256 + rom->get(a+1)));
 	      break;
 	    case 'd': case 'D': // direct
-	      h= a= rom->read(addr+1);
+	      h= a= rom->get(addr+1);
 	      work.appendf("$00%02x", h);
 	      //add_spaces(&work, 20);
 	      if (b[i]=='d')
-		temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+		temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      else
 	        temp.appendf("; [$%04x]=$%04x", a,
-			     read_addr(rom, a));
+			     (rom->get(a)*256 + rom->get(a+1)));
 	      break;
 	    case 'b': // immediate 8 bit
 	      work.appendf("#$%02x",
-			   rom->read(addr+1));
+			   rom->get(addr+1));
 	      break;
 	    case 'B': // immediate 16 bit
 	      work.appendf("#$%04x",
-			   read_addr(rom, addr+1));
+			   (rom->get(addr+1)*256 + rom->get(addr+1+1)));
 	      break;
 	    case 'r': // relative 8 bit offset
 	      work.appendf("$%04x",
-			   (addr+2+(i8_t)(rom->read(addr+1))) & 0xffff );
+			   (addr+2+(i8_t)(rom->get(addr+1))) & 0xffff );
 	      break;
 	    case 'R': // relative 16 bit offset
 	      {
 		u16_t a= addr+4;
-		i16_t r= rom->read(addr+2)*256;
-		r+= rom->read(addr+3);
+		i16_t r= rom->get(addr+2)*256;
+		r+= rom->get(addr+3);
 		a+= r;
 		work.appendf("$%04x", a);
 		break;
@@ -369,7 +369,7 @@ CL12::disass_xb(t_addr *addr, chars *work, chars *comment, int len, int corr, u3
   t_addr aof_xb= *addr;
   u16_t a;
   
-  p= rom->read(aof_xb);
+  p= rom->get(aof_xb);
   (*addr)++;
   
   switch (xb_type(p))
@@ -388,8 +388,8 @@ CL12::disass_xb(t_addr *addr, chars *work, chars *comment, int len, int corr, u3
       break;
   
     case 5: // 5. 111r r011 [n16,r] rr={X,Y,SP,PC}
-      h= rom->read(aof_xb+1);
-      l= rom->read(aof_xb+2);
+      h= rom->get(aof_xb+1);
+      l= rom->get(aof_xb+2);
       work->appendf("[$%04x,%s]", h*256+l,rr_names[(p&0x18)>>3]);
       break;
 
@@ -418,14 +418,14 @@ CL12::disass_xb(t_addr *addr, chars *work, chars *comment, int len, int corr, u3
       if ((p&0x02) == 0x00)
 	{
 	  // 9 bit
-	  offset= rom->read(aof_xb+1);
+	  offset= rom->get(aof_xb+1);
 	  if (p&0x01) offset|= 0xff00;
 	}
       else
 	{
 	  // 16 bit
-	  h= rom->read(aof_xb+1);
-	  l= rom->read(aof_xb+2);
+	  h= rom->get(aof_xb+1);
+	  l= rom->get(aof_xb+2);
 	  offset= h*256+l;
 	}
       work->appendf("$%+d,%s", offset, rr_names[(p&0x18)>>3]);
@@ -458,7 +458,7 @@ CL12::disass_xb(t_addr *addr, chars *work, chars *comment, int len, int corr, u3
 	comment->appendf("%+d", corr);
       a+= corr;
       comment->appendf("]=$%02x%02x%02x",
-		       rom->read(a), rom->read(a+1), rom->read(a+2));
+		       rom->get(a), rom->get(a+1), rom->get(a+2));
     }
   *addr= aof_xb;
 }
@@ -468,7 +468,7 @@ CL12::disass_b7(t_addr *addr, chars *work, chars *comment)
 {
   bool spec= false;
   (*addr)++;
-  u8_t pb= rom->read(*addr);
+  u8_t pb= rom->get(*addr);
   if (pb & 0x08)
     work->append("TFR/EXG INVALID");
   else
@@ -504,9 +504,9 @@ CL12::disass_loop(t_addr *addr, chars *work, chars *comment)
   u8_t code;
   i16_t r;
 
-  code= rom->read(*addr);
+  code= rom->get(*addr);
   *addr= *addr + 1;
-  r= rom->read(*addr);
+  r= rom->get(*addr);
   *addr= *addr + 1;
   if ((code & 0xc0) == 0) work->append("D");
   else if ((code & 0xc0) == 0x40) work->append("T");
@@ -534,7 +534,7 @@ CL12::disass_loop(t_addr *addr, chars *work, chars *comment)
 int
 CL12::inst_length(t_addr addr)
 {
-  u8_t code= rom->read(addr);
+  u8_t code= rom->get(addr);
   if (code == 0x04)
     return 3;
   struct dis_entry *di= get_dis_entry(addr);
@@ -544,7 +544,7 @@ CL12::inst_length(t_addr addr)
 	return di->length;
       int l= -(di->length);
       u16_t a= (u16_t)addr+l-1;
-      u8_t p= rom->read(a);
+      u8_t p= rom->get(a);
       int corr= 0;
       if ((di->code == 0x4b)
 	  &&
diff --git a/src/sims/mos6502.src/huc6280.cc b/src/sims/mos6502.src/huc6280.cc
index d765bb1..9781c70 100644
--- a/src/sims/mos6502.src/huc6280.cc
+++ b/src/sims/mos6502.src/huc6280.cc
@@ -122,7 +122,7 @@ cl_huc6280::get_dis_entry(t_addr addr)
 {
   struct dis_entry *de;
   
-  t_mem code= rom->read(addr);
+  t_mem code= rom->get(addr);
   for (de = disass_huc6280; de && de->mnemonic; de++)
     {
       if ((code & de->mask) == de->code)
diff --git a/src/sims/mos6502.src/mos6502.cc b/src/sims/mos6502.src/mos6502.cc
index 00e62c0..8c186ee 100644
--- a/src/sims/mos6502.src/mos6502.cc
+++ b/src/sims/mos6502.src/mos6502.cc
@@ -304,48 +304,48 @@ cl_mos6502::disassc(t_addr addr, chars *comment)
 	  switch (b[i])
 	    {
 	    case 'x': // (ind,X)
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      work.appendf("($%02x", l);
 	      addr_name(l, rom, &work);
 	      work.append(",X)");
 	      l+= rX;
 	      a= read_addr(rom, l);
-	      temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
 	    case 'y': // (ind),Y
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      work.appendf("($%02x", l);
 	      addr_name(l, rom, &work);
 	      work.append(",Y)");
 	      a= read_addr(rom, l) + rY;
-	      temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
 	    case 'a': // abs
-	      l= rom->read(addr+1);
-	      h= rom->read(addr+2);
+	      l= rom->get(addr+1);
+	      h= rom->get(addr+2);
 	      a= h*256+l;
 	      work.appendf("$%04x", a);
 	      addr_name(a, rom, &work);
-	      temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
 	    case 'A': // abs -- addr[2]
-	      l= rom->read(addr+1+1);
-	      h= rom->read(addr+2+1);
+	      l= rom->get(addr+1+1);
+	      h= rom->get(addr+2+1);
 	      a= h*256+l;
 	      work.appendf("$%04x", a);
 	      addr_name(a, rom, &work);
-	      temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
 	    case 'j': // JMP abs
-	      l= rom->read(addr+1);
-	      h= rom->read(addr+2);
+	      l= rom->get(addr+1);
+	      h= rom->get(addr+2);
 	      a= h*256+l;
 	      work.appendf("$%04x", a);
 	      addr_name(a, rom, &work);
 	      break;
 	    case 'J': // JMP (ind)
-	      l= rom->read(addr+1);
-	      h= rom->read(addr+2);
+	      l= rom->get(addr+1);
+	      h= rom->get(addr+2);
 	      a= h*256+l;
 	      work.appendf("($%04x", a);
 	      addr_name(a, rom, &work);
@@ -353,96 +353,96 @@ cl_mos6502::disassc(t_addr addr, chars *comment)
 	      temp.appendf("; [$%04x]=$%04x", a, read_addr(rom, a));
 	      break;
 	    case 'z': // zpg
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      work.appendf("$%04x", a= l);
 	      addr_name(a, rom, &work);
-	      temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
 	    case 'Z': // zpg -- addr[2]
-	      l= rom->read(addr+1+1);
+	      l= rom->get(addr+1+1);
 	      work.appendf("$%04x", a= l);
 	      addr_name(a, rom, &work);
-	      temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
 	    case 'X': // zpg.X
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      work.appendf("$%04x", l);
 	      addr_name(l, rom, &work);
 	      work.append(",X");
 	      l+= rX;
 	      a= l;
-	      temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
 	    case '%': // zpg.X -- addr[2]
-	      l= rom->read(addr+1+1);
+	      l= rom->get(addr+1+1);
 	      work.appendf("$%04x", l);
 	      addr_name(l, rom, &work);
 	      work.append(",X");
 	      l+= rX;
 	      a= l;
-	      temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
 	    case 'Y': // zpg.Y
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      work.appendf("$%04x", l);
 	      addr_name(l, rom, &work);
 	      work.append(",Y");
 	      l+= rY;
 	      a= l;
-	      temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
 	    case 'I': // (abs,X)
-	      l= rom->read(addr+1);
-	      h= rom->read(addr+2);
+	      l= rom->get(addr+1);
+	      h= rom->get(addr+2);
 	      a= h*256+l;
 	      work.appendf("($%04x,X)", a);
 	      a+= rX;
 	      temp.appendf("; [$%04x]=$%04x", a, read_addr(rom, a));
 	      break;
 	    case 'i': // abs,X
-	      l= rom->read(addr+1);
-	      h= rom->read(addr+2);
+	      l= rom->get(addr+1);
+	      h= rom->get(addr+2);
 	      a= h*256+l;
 	      work.appendf("$%04x", a);
 	      addr_name(a, rom, &work);
 	      work.append(",X");
 	      a+= rX;
-	      temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
 	    case '6': // abs,X -- addr[2]
-	      l= rom->read(addr+1+1);
-	      h= rom->read(addr+2+1);
+	      l= rom->get(addr+1+1);
+	      h= rom->get(addr+2+1);
 	      a= h*256+l;
 	      work.appendf("$%04x", a);
 	      addr_name(a, rom, &work);
 	      work.append(",X");
 	      a+= rX;
-	      temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
 	    case 'p': // abs,Y
-	      l= rom->read(addr+1);
-	      h= rom->read(addr+2);
+	      l= rom->get(addr+1);
+	      h= rom->get(addr+2);
 	      a= h*256+l;
 	      work.appendf("$%04x", a);
 	      addr_name(a, rom, &work);
 	      work.append(",Y");
 	      a+= rY;
-	      temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
 	    case 'r': // rel
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      a= addr + (i8_t)l + 2;
 	      work.appendf("$%04x", a);
 	      addr_name(a, rom, &work);
 	      break;
 	    case 'R': // rel in BBR/BBS
-	      l= rom->read(addr+2);
+	      l= rom->get(addr+2);
 	      a= addr + (i8_t)l + 3;
 	      work.appendf("$%04x", a);
 	      addr_name(a, rom, &work);
 	      break;
 	    case '#': // imm8
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      work.appendf("#$%02x", l);
 	      break;
 	    case '3': // (ind16)
@@ -452,22 +452,22 @@ cl_mos6502::disassc(t_addr addr, chars *comment)
 	      addr_name(a, rom, &work);
 	      break;
 	    case '4': // (zind)
-	      a= rom->read(addr+1);
+	      a= rom->get(addr+1);
 	      work.appendf("($%04x)", a);
 	      a= read_addr(rom, a);
 	      addr_name(a, rom, &work);
-	      temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
 	    case 'L': // log2(imm8)
-	      a= rom->read(addr+1);
+	      a= rom->get(addr+1);
 	      a= L2i(a);
 	      work.appendf("%d", a);
 	      break;
 	    case 'T': // block transfer params: SL,SH,DL,DH,LL,LH
 	      {
-		u16_t s= rom->read(addr+1) + 256*rom->read(addr+2);
-		u16_t d= rom->read(addr+3) + 256*rom->read(addr+4);
-		u16_t l= rom->read(addr+5) + 256*rom->read(addr+6);
+		u16_t s= rom->get(addr+1) + 256*rom->get(addr+2);
+		u16_t d= rom->get(addr+3) + 256*rom->get(addr+4);
+		u16_t l= rom->get(addr+5) + 256*rom->get(addr+6);
 		work.appendf("$%04x,$%04x,$%04x", s, d, l);
 		break;
 	      }
@@ -648,7 +648,7 @@ cl_mos6502::print_regs(class cl_console_base *con)
     {
       con->dd_printf(" ? 0x%04x ", PC);
       {
-	int i, j, code= rom->read(PC), l= inst_length(PC);
+	int i, j, code= rom->get(PC), l= inst_length(PC);
 	struct dis_entry *dt= dis_tbl();
 	for (i=0;i<3;i++)
 	  if (i<l)
diff --git a/src/sims/mos6502.src/mos65ce02.cc b/src/sims/mos6502.src/mos65ce02.cc
index 7fdbaff..b5f5b87 100644
--- a/src/sims/mos6502.src/mos65ce02.cc
+++ b/src/sims/mos6502.src/mos65ce02.cc
@@ -78,7 +78,7 @@ cl_mos65ce02::print_regs(class cl_console_base *con)
     {
       con->dd_printf(" ? 0x%04x ", PC);
       {
-	int i, j, code= rom->read(PC), l= inst_length(PC);
+	int i, j, code= rom->get(PC), l= inst_length(PC);
 	struct dis_entry *dt= dis_tbl();
 	for (i=0;i<3;i++)
 	  if (i<l)
diff --git a/src/sims/oisc.src/oisc.cc b/src/sims/oisc.src/oisc.cc
index a4998ad..43c7a99 100644
--- a/src/sims/oisc.src/oisc.cc
+++ b/src/sims/oisc.src/oisc.cc
@@ -166,7 +166,7 @@ cl_oisc::disassc(t_addr addr, chars *comment)
 	  /*
 	  if (strcmp(fmt.c_str(), "i8") == 0)
 	    {
-	      work.appendf("#0x%02x", rom->read(addr+1));
+	      work.appendf("#0x%02x", rom->get(addr+1));
 	    }
 	  */
 	  /*
diff --git a/src/sims/rxk.src/r3ka.cc b/src/sims/rxk.src/r3ka.cc
index f81e526..be1fa47 100644
--- a/src/sims/rxk.src/r3ka.cc
+++ b/src/sims/rxk.src/r3ka.cc
@@ -85,13 +85,13 @@ cl_r3ka::make_cpu_hw(void)
 struct dis_entry *
 cl_r3ka::dis_entry(t_addr addr)
 {
-  u8_t code= rom->read(addr);
+  u8_t code= rom->get(addr);
   int i;
   struct dis_entry *dt;
 
   if (code == 0xed)
     {
-      code= rom->read(addr+1);
+      code= rom->get(addr+1);
 
       dt= disass_pedm3;
       i= 0;
@@ -121,7 +121,7 @@ cl_r3ka::dis_entry(t_addr addr)
 	{
 	  cIR= &cIY;
 	}
-      code= rom->read(addr+1);
+      code= rom->get(addr+1);
       dt= disass_pddm3;
       i= 0;
       while (((code & dt[i].mask) != dt[i].code) &&
@@ -154,10 +154,10 @@ cl_r3ka::dis_entry(t_addr addr)
 char *
 cl_r3ka::disassc(t_addr addr, chars *comment)
 {
-  t_mem code= rom->read(addr);
+  t_mem code= rom->get(addr);
   if (code == 0x5b)
     {
-      if (rom->read(addr-1) != 0x76)
+      if (rom->get(addr-1) != 0x76)
 	return strdup("IDET");
     }
   return cl_r3k::disassc(addr, comment);
diff --git a/src/sims/rxk.src/r4k.cc b/src/sims/rxk.src/r4k.cc
index a3f4989..847eed8 100644
--- a/src/sims/rxk.src/r4k.cc
+++ b/src/sims/rxk.src/r4k.cc
@@ -164,13 +164,13 @@ static struct dis_entry de7f;
 struct dis_entry *
 cl_r4k::dis_entry(t_addr addr)
 {
-  u8_t code= rom->read(addr), mode= kmode;
+  u8_t code= rom->get(addr), mode= kmode;
   int i;
   struct dis_entry *dt;
   
   if (code == 0xed)
     {
-      code= rom->read(addr+1);
+      code= rom->get(addr+1);
       
       dt= disass_pedm3;
       i= 0;
@@ -208,7 +208,7 @@ cl_r4k::dis_entry(t_addr addr)
 	{
 	  cIR= &cIY;
 	}
-      code= rom->read(addr+1);
+      code= rom->get(addr+1);
       dt= disass_pddm3;
       i= 0;
       while (((code & dt[i].mask) != dt[i].code) &&
@@ -239,7 +239,7 @@ cl_r4k::dis_entry(t_addr addr)
   if ((code == 0x7f) && (mode == 3))
     {
       // 7f page is special in 4k mode
-      code= rom->read(addr+1);
+      code= rom->get(addr+1);
       if ((code <= 0x3f) || (code >= 0xc0))
 	return NULL;
       if ((code >= 0x40) && (code <= 0x6f))
@@ -272,7 +272,7 @@ cl_r4k::dis_entry(t_addr addr)
   if ((code == 0x7f) && (mode == 2))
     {
       // 7f page in mode 10 is same as 4k insts on main page
-      code= rom->read(addr+1);
+      code= rom->get(addr+1);
       dt= disass_p0m4;
       i= 0;
       while (((code & dt[i].mask) != dt[i].code) &&
@@ -330,7 +330,7 @@ char mnemo[100];
 struct dis_entry *
 cl_r4k::dis_6d_entry(t_addr addr)
 {
-  u8_t h, l, code= rom->read(addr+1);
+  u8_t h, l, code= rom->get(addr+1);
   chars op, idx, offset;
   
   if (code == 0x6d)
@@ -372,7 +372,7 @@ cl_r4k::dis_6d_entry(t_addr addr)
     {
     case 0:
       {
-	u8_t d= rom->read(addr+2);
+	u8_t d= rom->get(addr+2);
 	disass_6d[0].length= 3;
 	if (l&1)
 	  offset.format("+%u", d);
diff --git a/src/sims/rxk.src/r6k.cc b/src/sims/rxk.src/r6k.cc
index 2ee85da..51e613d 100644
--- a/src/sims/rxk.src/r6k.cc
+++ b/src/sims/rxk.src/r6k.cc
@@ -76,8 +76,8 @@ cl_r6k::init(void)
 struct dis_entry *
 cl_r6k::dis_entry(t_addr addr)
 {
-  u8_t code0= rom->read(addr);
-  t_mem codew= code0 + 256*(rom->read(addr+1));
+  u8_t code0= rom->get(addr);
+  t_mem codew= code0 + 256*(rom->get(addr+1));
   struct dis_entry *de;
   int i;
   i= 0;
@@ -102,7 +102,7 @@ cl_r6k::dis_entry(t_addr addr)
 char *
 cl_r6k::disassc_cb_6(t_addr addr, chars *comment)
 {
-  u8_t code= rom->read(addr);
+  u8_t code= rom->get(addr);
   switch (code & 7)
     {
     case 0: return strdup("LD    B,B");
diff --git a/src/sims/rxk.src/rxk.cc b/src/sims/rxk.src/rxk.cc
index 631f6f8..8f58211 100644
--- a/src/sims/rxk.src/rxk.cc
+++ b/src/sims/rxk.src/rxk.cc
@@ -236,7 +236,7 @@ cl_rxk::dis_tbl(void)
 struct dis_entry *
 cl_rxk::dis_entry(t_addr addr)
 {
-  u8_t code= rom->read(addr);
+  u8_t code= rom->get(addr);
   int i;
   struct dis_entry *dt;
   i= 0;
@@ -244,7 +244,7 @@ cl_rxk::dis_entry(t_addr addr)
   if (code == 0xed)
     {
       dt= disass_pedm3;
-      code= rom->read(addr+1);
+      code= rom->get(addr+1);
       while (((code & dt[i].mask) != dt[i].code) &&
 	     dt[i].mnemonic)
 	i++;
@@ -263,7 +263,7 @@ cl_rxk::dis_entry(t_addr addr)
 	  cIR= &cIY;
 	}
       dt= disass_pddm3;
-      code= rom->read(addr+1);
+      code= rom->get(addr+1);
       while (((code & dt[i].mask) != dt[i].code) &&
 	     dt[i].mnemonic)
 	i++;
@@ -308,15 +308,15 @@ cl_rxk::disassc(t_addr addr, chars *comment)
   
   dt= dis_entry(addr);
   if (code == 0xed)
-    code= rom->read(++addr);
+    code= rom->get(++addr);
   else if ((code == 0xdd) || (code == 0xfd))
     {
-      code= rom->read(++addr);
+      code= rom->get(++addr);
       if (code == 0xcb)
 	return disassc_dd_cb(addr-1, comment);
     }
   else if ((code == 0x49) && (kmode > 0))
-    code= rom->read(++addr);
+    code= rom->get(++addr);
   
   if (!dt)
     return strdup("-- unknown");
@@ -346,7 +346,7 @@ cl_rxk::disassc(t_addr addr, chars *comment)
 	  if (fmt.empty()) work.append("'");
 	  else if (fmt=="ps0.0")
 	    {
-	      int h= rom->read(addr) & 0x3;
+	      int h= rom->get(addr) & 0x3;
 	      switch (h)
 		{
 		case 0: work.append("PW"); break;
@@ -369,42 +369,42 @@ cl_rxk::disassc(t_addr addr, chars *comment)
 	      //x= rom->get(++addr);
 	      // use last 3 bytes
 	      addr+= 3;
-	      l= rom->read(inst_addr + dt->length-3);
-	      h= rom->read(inst_addr + dt->length-2);
-	      x= rom->read(inst_addr + dt->length-1);
+	      l= rom->get(inst_addr + dt->length-3);
+	      h= rom->get(inst_addr + dt->length-2);
+	      x= rom->get(inst_addr + dt->length-1);
 	      work.appendf("0x%06x", x*0x10000+h*256+l);
 	      break;
 	    case 'w': // 16 bit unsigned
-	      //l= rom->read(++addr);
-	      //h= rom->read(++addr);
+	      //l= rom->get(++addr);
+	      //h= rom->get(++addr);
 	      addr+= 2;
 	      // use last 2 bytes intead
-	      l= rom->read(inst_addr + dt->length-2);
-	      h= rom->read(inst_addr + dt->length-1);
+	      l= rom->get(inst_addr + dt->length-2);
+	      h= rom->get(inst_addr + dt->length-1);
 	      work.appendf("0x%04x", h*256+l);
 	      break;
 	    case 'b': // 8 bit unsigned
-	      //l= rom->read(++addr);
+	      //l= rom->get(++addr);
 	      ++addr;
-	      l= rom->read(inst_addr + dt->length-1);
+	      l= rom->get(inst_addr + dt->length-1);
 	      work.appendf("0x%02x", l);
 	      break;
 	    case 'd': // 8 bit signed
 	      {
 		i8_t r;
-		//r= rom->read(++addr);
+		//r= rom->get(++addr);
 		++addr;
 		// use last byte instead
-		r= rom->read(inst_addr + dt->length-1);
+		r= rom->get(inst_addr + dt->length-1);
 		work.appendf("%+d", r);
 	      }
 	      break;
 	    case 'r': // 8 bit relative jump
 	      {
 		i8_t r;
-		//r= rom->read(++addr);
+		//r= rom->get(++addr);
 		++addr;
-		r= rom->read(inst_addr + dt->length-1);
+		r= rom->get(inst_addr + dt->length-1);
 		t_addr a= addr + 1 + r;
 		work.appendf("0x%04x", AU16(a));
 	      }
@@ -412,11 +412,11 @@ cl_rxk::disassc(t_addr addr, chars *comment)
 	    case 'R': // 16 bit signed PC relative
 	      {
 		u8_t el, eh;
-		//el= rom->read(++addr);
-		//eh= rom->read(++addr);
+		//el= rom->get(++addr);
+		//eh= rom->get(++addr);
 		addr+= 2;
-		el= rom->read(inst_addr + dt->length-2);
-		eh= rom->read(inst_addr + dt->length-1);
+		el= rom->get(inst_addr + dt->length-2);
+		eh= rom->get(inst_addr + dt->length-1);
 		i16_t ee= eh*256+el;
 		t_addr a= (addr+1 + ee) & 0xffff;
 		work.appendf("0x%04x", a);
@@ -440,18 +440,18 @@ cl_rxk::disassc(t_addr addr, chars *comment)
 	    case 'X': // LXPC 0 1 2 3 xpl xph
 	      {
 		u16_t x;
-		x= rom->read(addr+4) * 256;
-		x+= rom->read(addr+3);
+		x= rom->get(addr+4) * 256;
+		x+= rom->get(addr+3);
 		work.appendf("0x%03x", x);
 		break;
 	      }
 	    case 'x': // 32 bit unsigned
 	      {
 		u32_t n, m, l, h;
-		n= rom->read(++addr);
-		m= rom->read(++addr);
-		l= rom->read(++addr);
-		h= rom->read(++addr);
+		n= rom->get(++addr);
+		m= rom->get(++addr);
+		l= rom->get(++addr);
+		h= rom->get(++addr);
 		work.appendf("0x%08x", (h<<24)+(l<<16)+(m<<8)+n);
 	      }
 	    }
@@ -468,7 +468,7 @@ cl_rxk::disassc(t_addr addr, chars *comment)
 char *
 cl_rxk::disassc_cb(t_addr addr, chars *comment)
 {
-  u8_t code= rom->read(++addr);
+  u8_t code= rom->get(++addr);
   u8_t x, y, z;
   chars work, temp;
   char b[100];
@@ -550,9 +550,9 @@ cl_rxk::disassc_dd_cb(t_addr addr, chars *comment)
   t_addr a;
   
   a= addr+2;
-  d= rom->read(a);
+  d= rom->get(a);
   a++;
-  code= rom->read(a);
+  code= rom->get(a);
   
   x= code>>6;
   y= (code>>3)&7;
@@ -630,12 +630,12 @@ cl_rxk::disassc_dd_cb(t_addr addr, chars *comment)
 int
 cl_rxk::inst_length(t_addr addr)
 {
-  u8_t code= rom->read(addr);
+  u8_t code= rom->get(addr);
   if (code == 0xcb)
     return 2;
   if ((code == 0xdd) || (code == 0xfd))
     {
-      if (rom->read(addr+1) == 0xcb)
+      if (rom->get(addr+1) == 0xcb)
 	return 4;
     }
   struct dis_entry *dt= dis_entry(addr);
diff --git a/src/sims/z80.src/ez80.cc b/src/sims/z80.src/ez80.cc
index 0804a18..340e77f 100644
--- a/src/sims/z80.src/ez80.cc
+++ b/src/sims/z80.src/ez80.cc
@@ -236,11 +236,11 @@ cl_ez80::get_disasm_info(t_addr addr,
   int immed_n = 0;
   struct dis_entry *dis_e= NULL;
   
-  code= rom->read(addr++);
+  code= rom->get(addr++);
   switch (code)
     {
     case 0xed:
-      code= rom->read(addr++);
+      code= rom->get(addr++);
       i= 0;
       while ((code & disass_ez80_ed[i].mask) != disass_ez80_ed[i].code &&
 	     disass_ez80_ed[i].mnemonic)
@@ -262,7 +262,7 @@ cl_ez80::get_disasm_info(t_addr addr,
       break;
 
     case 0xdd:
-      code= rom->read(addr++);
+      code= rom->get(addr++);
       i= 0;
       while ((code & disass_ez80_dd[i].mask) != disass_ez80_dd[i].code &&
 	     disass_ez80_dd[i].mnemonic)
@@ -285,7 +285,7 @@ cl_ez80::get_disasm_info(t_addr addr,
       break;
 
     case 0xfd:
-      code= rom->read(addr++);
+      code= rom->get(addr++);
       i= 0;
       while ((code & disass_ez80_fd[i].mask) != disass_ez80_fd[i].code &&
 	     disass_ez80_fd[i].mnemonic)
diff --git a/src/sims/z80.src/gb80.cc b/src/sims/z80.src/gb80.cc
index 385aff3..f7ae358 100644
--- a/src/sims/z80.src/gb80.cc
+++ b/src/sims/z80.src/gb80.cc
@@ -309,12 +309,12 @@ cl_gb80::get_disasm_info(t_addr addr,
   int start_addr = addr;
   struct dis_entry *dis_e;
 
-  code= rom->read(addr++);
+  code= rom->get(addr++);
   dis_e = NULL;
 
   switch(code) {
     case 0xcb:  /* ESC code to lots of op-codes, all 2-byte */
-      code= rom->read(addr++);
+      code= rom->get(addr++);
       i= 0;
       while ((code & disass_gb80_cb[i].mask) != disass_gb80_cb[i].code &&
         disass_gb80_cb[i].mnemonic)
@@ -387,18 +387,18 @@ cl_gb80::disass(t_addr addr)
           switch (*(b++))
             {
             case 'd': // d    jump relative target, signed? byte immediate operand
-              temp.format("#%d", (char)rom->read(addr+immed_offset));
+              temp.format("#%d", (char)rom->get(addr+immed_offset));
               ++immed_offset;
               break;
             case 'w': // w    word immediate operand
               temp.format("#0x%04x",
-                 (uint)((rom->read(addr+immed_offset)) |
-                        (rom->read(addr+immed_offset+1)<<8)) );
+                 (uint)((rom->get(addr+immed_offset)) |
+                        (rom->get(addr+immed_offset+1)<<8)) );
               ++immed_offset;
               ++immed_offset;
               break;
             case 'b': // b    byte immediate operand
-              temp.format("#0x%02x", (uint)rom->read(addr+immed_offset));
+              temp.format("#0x%02x", (uint)rom->get(addr+immed_offset));
               ++immed_offset;
               break;
             default:
diff --git a/src/sims/z80.src/r800.cc b/src/sims/z80.src/r800.cc
index 94e8b33..13f3f29 100644
--- a/src/sims/z80.src/r800.cc
+++ b/src/sims/z80.src/r800.cc
@@ -88,8 +88,8 @@ cl_r800::get_disasm_info(t_addr addr,
 {
   uint c0, c1;
   struct dis_entry *de;
-  c0= rom->read(addr);
-  c1= rom->read(addr+1);
+  c0= rom->get(addr);
+  c1= rom->get(addr+1);
   if (c0 == 0xed)
     {
       // Z280/R800 multu HL=A*r
diff --git a/src/sims/z80.src/z80.cc b/src/sims/z80.src/z80.cc
index 775a753..ebd8e7d 100644
--- a/src/sims/z80.src/z80.cc
+++ b/src/sims/z80.src/z80.cc
@@ -376,12 +376,12 @@ cl_z80::get_disasm_info(t_addr addr,
   int start_addr = addr;
   struct dis_entry *dis_e;
 
-  code= rom->read(addr++);
+  code= rom->get(addr++);
   dis_e = NULL;
 
   switch(code) {
     case 0xcb:  /* ESC code to lots of op-codes, all 2-byte */
-      code= rom->read(addr++);
+      code= rom->get(addr++);
       i= 0;
       while ((code & disass_z80_cb[i].mask) != disass_z80_cb[i].code &&
         disass_z80_cb[i].mnemonic)
@@ -393,7 +393,7 @@ cl_z80::get_disasm_info(t_addr addr,
     break;
 
     case 0xed: /* ESC code to about 80 opcodes of various lengths */
-      code= rom->read(addr++);
+      code= rom->get(addr++);
       if (type->type == CPU_Z80N)
 	{
 	  i= 0;
@@ -431,11 +431,11 @@ cl_z80::get_disasm_info(t_addr addr,
       break;
 
     case 0xdd: /* ESC codes,about 284, vary lengths, IX centric */
-      code= rom->read(addr++);
+      code= rom->get(addr++);
       if (code == 0xcb) {
         immed_n = 2;
         addr++;  // pass up immed data
-        code= rom->read(addr++);
+        code= rom->get(addr++);
         i= 0;
         while ((code & disass_z80_ddcb[i].mask) != disass_z80_ddcb[i].code &&
           disass_z80_ddcb[i].mnemonic)
@@ -457,11 +457,11 @@ cl_z80::get_disasm_info(t_addr addr,
     break;
 
     case 0xfd: /* ESC codes,sme as dd but IY centric */
-      code= rom->read(addr++);
+      code= rom->get(addr++);
       if (code == 0xcb) {
         immed_n = 2;
         addr++;  // pass up immed data
-        code= rom->read(addr++);
+        code= rom->get(addr++);
         i= 0;
         while ((code & disass_z80_fdcb[i].mask) != disass_z80_fdcb[i].code &&
           disass_z80_fdcb[i].mnemonic)
@@ -549,25 +549,25 @@ cl_z80::disass(t_addr addr)
           switch (*(b++))
             {
             case 'd': // jump relative target, signed? byte immediate operand
-              temp.format("%d", (signed char)(rom->read(addr+immed_offset)));
+              temp.format("%d", (signed char)(rom->get(addr+immed_offset)));
               ++immed_offset;
               break;
             case 'w': // word immediate operand, little endian
               temp.format("0x%04x",
-			  (uint)((rom->read(addr+immed_offset)) |
-				 (rom->read(addr+immed_offset+1)<<8)) );
+			  (uint)((rom->get(addr+immed_offset)) |
+				 (rom->get(addr+immed_offset+1)<<8)) );
               ++immed_offset;
               ++immed_offset;
               break;
             case 'W': // word immediate operand, big endian
               temp.format("0x%04x",
-			  (uint)((rom->read(addr+immed_offset)<<8) |
-				 (rom->read(addr+immed_offset+1))) );
+			  (uint)((rom->get(addr+immed_offset)<<8) |
+				 (rom->get(addr+immed_offset+1))) );
               ++immed_offset;
               ++immed_offset;
               break;
             case 'b': // byte immediate operand
-              temp.format("0x%02x", (uint)rom->read(addr+immed_offset));
+              temp.format("0x%02x", (uint)rom->get(addr+immed_offset));
               ++immed_offset;
               break;
             default:
-- 
2.43.0


From 307db7535a4ab18037ae26a366c059c3f05eb202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:16 +0000
Subject: [PATCH 055/119] fix: disassembling reads address words without side
 effects

---
 src/core/motorola.src/m6800.cc   | 17 +++++++++++++----
 src/core/motorola.src/m6800cl.h  |  1 +
 src/core/motorola.src/m68hc11.cc |  8 ++++----
 src/core/sim.src/uc.cc           |  8 ++++++++
 src/core/sim.src/uccl.h          |  1 +
 src/sims/f8.src/disass.cc        | 32 ++++++++++++++++----------------
 src/sims/i8085.src/i8080.cc      | 14 +++++++-------
 src/sims/mos6502.src/mos6502.cc  | 14 +++++++-------
 8 files changed, 57 insertions(+), 38 deletions(-)

diff --git a/src/core/motorola.src/m6800.cc b/src/core/motorola.src/m6800.cc
index 4aba681..b200c46 100644
--- a/src/core/motorola.src/m6800.cc
+++ b/src/core/motorola.src/m6800.cc
@@ -401,7 +401,7 @@ cl_m6800::disassc(t_addr addr, chars *comment)
 	      if (b[i]=='x')
 		temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      else
-		temp.appendf("; [$%04x]=$%04x", a, read_addr(rom, a));
+		temp.appendf("; [$%04x]=$%04x", a, get_addr(rom, a));
 	      break;
 	    case 'e': case 'E': // extended
 	      h= rom->get(++addr);
@@ -413,7 +413,7 @@ cl_m6800::disassc(t_addr addr, chars *comment)
 		temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      else
 		temp.appendf("; [$%04x]=$%04x", a,
-			     read_addr(rom, a));
+			     get_addr(rom, a));
 	      break;
 	    case 'd': case 'D': // direct
 	      h= a= rom->get(++addr);
@@ -423,7 +423,7 @@ cl_m6800::disassc(t_addr addr, chars *comment)
 		temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      else
 	        temp.appendf("; [$%04x]=$%04x", a,
-			     read_addr(rom, a));
+			     get_addr(rom, a));
 	      break;
 	    case 'b': // immediate 8 bit
 	      work.appendf("#$%02x",
@@ -431,7 +431,7 @@ cl_m6800::disassc(t_addr addr, chars *comment)
 	      break;
 	    case 'B': // immediate 16 bit
 	      work.appendf("#$%04x",
-			   read_addr(rom, ++addr));
+			   get_addr(rom, ++addr));
 	      break;
 	    case 'r': // relative
 	      work.appendf("$%04x",
@@ -468,6 +468,15 @@ cl_m6800::read_addr(class cl_memory *m, t_addr start_addr)
   return h*256 + l;
 }
 
+t_addr
+cl_m6800::get_addr(class cl_memory *m, t_addr start_addr)
+{
+  u8_t h, l;
+  h= m->get(start_addr);
+  l= m->get(start_addr+1);
+  return h*256 + l;
+}
+
 void
 cl_m6800::print_regs(class cl_console_base *con)
 {
diff --git a/src/core/motorola.src/m6800cl.h b/src/core/motorola.src/m6800cl.h
index c899a13..3c849ec 100644
--- a/src/core/motorola.src/m6800cl.h
+++ b/src/core/motorola.src/m6800cl.h
@@ -190,6 +190,7 @@ public:
   virtual struct dis_entry *get_dis_entry(t_addr addr);
   virtual char *disassc(t_addr addr, chars *comment=NULL);
   virtual t_addr read_addr(class cl_memory *m, t_addr start_addr);
+  virtual t_addr get_addr(class cl_memory *m, t_addr start_addr);
   virtual int inst_length(t_addr addr);
   virtual int longest_inst(void) { return 4; }
   
diff --git a/src/core/motorola.src/m68hc11.cc b/src/core/motorola.src/m68hc11.cc
index b6b7e1f..d2aaeed 100644
--- a/src/core/motorola.src/m68hc11.cc
+++ b/src/core/motorola.src/m68hc11.cc
@@ -359,7 +359,7 @@ cl_m68hc11::disassc(t_addr addr, chars *comment)
 	      if (b[i]=='x')
 		temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
 	      else
-		temp.appendf("; [$%04x]=$%04x", a, read_addr(rom, a));
+		temp.appendf("; [$%04x]=$%04x", a, get_addr(rom, a));
 	      break;
 	    case 'e': case 'E': // extended
 	      h= rom->read(addr+1);
@@ -371,7 +371,7 @@ cl_m68hc11::disassc(t_addr addr, chars *comment)
 		temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
 	      else
 		temp.appendf("; [$%04x]=$%04x", a,
-			     read_addr(rom, a));
+			     get_addr(rom, a));
 	      break;
 	    case 'd': case 'D': // direct
 	      h= a= rom->read(addr+1);
@@ -381,7 +381,7 @@ cl_m68hc11::disassc(t_addr addr, chars *comment)
 		temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
 	      else
 	        temp.appendf("; [$%04x]=$%04x", a,
-			     read_addr(rom, a));
+			     get_addr(rom, a));
 	      break;
 	    case 'b': // immediate 8 bit
 	      work.appendf("#$%02x",
@@ -389,7 +389,7 @@ cl_m68hc11::disassc(t_addr addr, chars *comment)
 	      break;
 	    case 'B': // immediate 16 bit
 	      work.appendf("#$%04x",
-			   read_addr(rom, addr+1));
+			   get_addr(rom, addr+1));
 	      break;
 	    case 'r': // relative
 	      work.appendf("$%04x",
diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 297d915..d8890d0 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -2899,6 +2899,14 @@ cl_uc::read_addr(class cl_memory *m, t_addr start_addr)
   return m->read(start_addr) + 256*m->read(start_addr+1);
 }
 
+// same as read_addr, but without side effects of reading
+t_addr
+cl_uc::get_addr(class cl_memory *m, t_addr start_addr)
+{
+  if (!m) return 0;
+  return m->get(start_addr) + 256*m->get(start_addr+1);
+}
+
 /*
  * Messages to broadcast
  */
diff --git a/src/core/sim.src/uccl.h b/src/core/sim.src/uccl.h
index 44ba2bf..3e4f6c9 100644
--- a/src/core/sim.src/uccl.h
+++ b/src/core/sim.src/uccl.h
@@ -540,6 +540,7 @@ public:
   virtual chars cell_name(class cl_memory_cell *cell, int bitnr_high, int bitnr_low);
   virtual chars cell_name(class cl_memory_cell *cell) { return cell_name(cell, -1, -1); }
   virtual t_addr read_addr(class cl_memory *m, t_addr start_addr);
+  virtual t_addr get_addr(class cl_memory *m, t_addr start_addr);
   virtual class cl_cvar *get_var(chars name);
   
   /* Converting abstract address spaces into real ones */
diff --git a/src/sims/f8.src/disass.cc b/src/sims/f8.src/disass.cc
index 84c4a71..5dcab6f 100644
--- a/src/sims/f8.src/disass.cc
+++ b/src/sims/f8.src/disass.cc
@@ -229,31 +229,31 @@ cl_f8::disassc(t_addr addr, chars *comment)
 	    }
 	  if (strcmp(fmt.c_str(), "i16") == 0)
 	    {
-	      word->appendf("0x%04x", read_addr(rom, addr+1));
+	      word->appendf("0x%04x", get_addr(rom, addr+1));
 	    }
 	  if (strcmp(fmt.c_str(), "a16") == 0)
 	    {
-	      a= read_addr(rom, addr+1);
+	      a= get_addr(rom, addr+1);
 	      word->appendf("0x%04x", a);
 	    }
 	  if (strcmp(fmt.c_str(), "a16_8") == 0)
 	    {
-	      a= read_addr(rom, addr+1);
+	      a= get_addr(rom, addr+1);
 	      word->appendf("0x%04x", a);
 	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->get(a));
 	    }
 	  if (strcmp(fmt.c_str(), "a16_16") == 0)
 	    {
-	      a= read_addr(rom, addr+1);
+	      a= get_addr(rom, addr+1);
 	      word->appendf("0x%04x", a);
-	      comment->appendf("; [0x%04x]= 0x%04x", a, read_addr(rom, a));
+	      comment->appendf("; [0x%04x]= 0x%04x", a, get_addr(rom, a));
 	    }
 	  if (strstr(fmt.c_str(), "a16_b") == fmt.c_str())
 	    {
 	      char bc= fmt.c_str()[5];
 	      int b= 0;
 	      if (bc && bc>='0' && bc<='7') b= bc-'0';
-	      a= read_addr(rom, addr+1);
+	      a= get_addr(rom, addr+1);
 	      word->appendf("0x%04x", a);
 	      l= rom->get(a);
 	      h= l&(1<<b);
@@ -273,11 +273,11 @@ cl_f8::disassc(t_addr addr, chars *comment)
 	      a= rSP+l;
 	      a&= 0xffff;
 	      word->appendf("0x%02x,sp", l);
-	      comment->appendf("; [0x%04x]= 0x%04x", a, read_addr(rom,a));
+	      comment->appendf("; [0x%04x]= 0x%04x", a, get_addr(rom,a));
 	    }
 	  if (strcmp(fmt.c_str(), "nnz_8") == 0)
 	    {
-	      nn= read_addr(rom, addr+1);
+	      nn= get_addr(rom, addr+1);
 	      a= nn+rZ;
 	      a&= 0xffff;
 	      word->appendf("0x%04x,z", nn);
@@ -285,11 +285,11 @@ cl_f8::disassc(t_addr addr, chars *comment)
 	    }
 	  if (strcmp(fmt.c_str(), "nnz_16") == 0)
 	    {
-	      nn= read_addr(rom, addr+1);
+	      nn= get_addr(rom, addr+1);
 	      a= nn+rZ;
 	      a&= 0xffff;
 	      word->appendf("0x%04x,z", nn);
-	      comment->appendf("; [0x%04x]= 0x%04x", a, read_addr(rom,a));
+	      comment->appendf("; [0x%04x]= 0x%04x", a, get_addr(rom,a));
 	    }
 	  if (strcmp(fmt.c_str(), "z_8") == 0)
 	    {
@@ -303,7 +303,7 @@ cl_f8::disassc(t_addr addr, chars *comment)
 	      a= rZ;
 	      a&= 0xffff;
 	      word->appendf("z");
-	      comment->appendf("; [0x%04x]= 0x%04x", a, read_addr(rom,a));
+	      comment->appendf("; [0x%04x]= 0x%04x", a, get_addr(rom,a));
 	    }
 	  if (strcmp(fmt.c_str(), "y_8") == 0)
 	    {
@@ -315,7 +315,7 @@ cl_f8::disassc(t_addr addr, chars *comment)
 	    {
 	      a= rY;
 	      word->appendf("y");
-	      comment->appendf("; [0x%04x]= 0x%04x", a, read_addr(rom,a));
+	      comment->appendf("; [0x%04x]= 0x%04x", a, get_addr(rom,a));
 	    }
 	  if (strcmp(fmt.c_str(), "ny_8") == 0)
 	    {
@@ -331,7 +331,7 @@ cl_f8::disassc(t_addr addr, chars *comment)
 	      a= rY+l;
 	      a&= 0xffff;
 	      word->appendf("0x%02x,sp", l);
-	      comment->appendf("; [0x%04x]= 0x%04x", a, read_addr(rom,a));
+	      comment->appendf("; [0x%04x]= 0x%04x", a, get_addr(rom,a));
 	    }
 	  if (strcmp(fmt.c_str(), "nA_16") == 0)
 	    {
@@ -339,15 +339,15 @@ cl_f8::disassc(t_addr addr, chars *comment)
 	      a= a16(prefs)+l;
 	      a&= 0xffff;
 	      word->appendf("0x%02x,%s", l, a16_name(prefs));
-	      comment->appendf("; [0x%04x]= 0x%04x", a, read_addr(rom,a));
+	      comment->appendf("; [0x%04x]= 0x%04x", a, get_addr(rom,a));
 	    }
 	  if (strcmp(fmt.c_str(), "nnA_16") == 0)
 	    {
-	      nn= read_addr(rom, addr+1);
+	      nn= get_addr(rom, addr+1);
 	      a= a16(prefs)+nn;
 	      a&= 0xffff;
 	      word->appendf("0x%04x,%s", nn, a16_name(prefs));
-	      comment->appendf("; [0x%04x]= 0x%04x", a, read_addr(rom,a));
+	      comment->appendf("; [0x%04x]= 0x%04x", a, get_addr(rom,a));
 	    }
 
 	  continue;
diff --git a/src/sims/i8085.src/i8080.cc b/src/sims/i8085.src/i8080.cc
index aa889f0..8060511 100644
--- a/src/sims/i8085.src/i8080.cc
+++ b/src/sims/i8085.src/i8080.cc
@@ -261,7 +261,7 @@ cl_i8080::dis_rp16(chars *comment, int rp)
     }
   if (comment->empty())
     *comment= "; ";
-  comment->appendf("[0x%04x]= 0x%04x", a, read_addr(rom, a));
+  comment->appendf("[0x%04x]= 0x%04x", a, get_addr(rom, a));
 }
 
 char *
@@ -329,7 +329,7 @@ cl_i8080::disassc(t_addr addr, chars *comment)
 	    }
 	  if (strcmp(fmt.c_str(), "i16") == 0)
 	    {
-	      work.appendf("0x%04x", read_addr(rom, addr+1));
+	      work.appendf("0x%04x", get_addr(rom, addr+1));
 	    }
 	  if (strcmp(fmt.c_str(), "rp5") == 0)
 	    {
@@ -353,25 +353,25 @@ cl_i8080::disassc(t_addr addr, chars *comment)
 	    }
 	  if (strcmp(fmt.c_str(), "a16") == 0)
 	    {
-	      a= read_addr(rom, addr+1);
+	      a= get_addr(rom, addr+1);
 	      work.appendf("0x%04x", a);
 	    }
 	  if (strcmp(fmt.c_str(), "a16_8") == 0)
 	    {
-	      a= read_addr(rom, addr+1);
+	      a= get_addr(rom, addr+1);
 	      work.appendf("0x%04x", a);
 	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->get(a));
 	    }
 	  if (strcmp(fmt.c_str(), "a16_16") == 0)
 	    {
-	      a= read_addr(rom, addr+1);
+	      a= get_addr(rom, addr+1);
 	      work.appendf("0x%04x", a);
-	      comment->appendf("; [0x%04x]= 0x%04x", a, read_addr(rom, a));
+	      comment->appendf("; [0x%04x]= 0x%04x", a, get_addr(rom, a));
 	    }
 	  if (strcmp(fmt.c_str(), "de16") == 0)
 	    {
 	      a= rDE;
-	      comment->appendf("; [0x%04x]= 0x%04x", a, read_addr(rom, a));
+	      comment->appendf("; [0x%04x]= 0x%04x", a, get_addr(rom, a));
 	    }
 	  if (strcmp(fmt.c_str(), "rst") == 0)
 	    {
diff --git a/src/sims/mos6502.src/mos6502.cc b/src/sims/mos6502.src/mos6502.cc
index 8c186ee..1ac7d4d 100644
--- a/src/sims/mos6502.src/mos6502.cc
+++ b/src/sims/mos6502.src/mos6502.cc
@@ -309,7 +309,7 @@ cl_mos6502::disassc(t_addr addr, chars *comment)
 	      addr_name(l, rom, &work);
 	      work.append(",X)");
 	      l+= rX;
-	      a= read_addr(rom, l);
+	      a= get_addr(rom, l);
 	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
 	    case 'y': // (ind),Y
@@ -317,7 +317,7 @@ cl_mos6502::disassc(t_addr addr, chars *comment)
 	      work.appendf("($%02x", l);
 	      addr_name(l, rom, &work);
 	      work.append(",Y)");
-	      a= read_addr(rom, l) + rY;
+	      a= get_addr(rom, l) + rY;
 	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
 	    case 'a': // abs
@@ -350,7 +350,7 @@ cl_mos6502::disassc(t_addr addr, chars *comment)
 	      work.appendf("($%04x", a);
 	      addr_name(a, rom, &work);
 	      work.append(")");
-	      temp.appendf("; [$%04x]=$%04x", a, read_addr(rom, a));
+	      temp.appendf("; [$%04x]=$%04x", a, get_addr(rom, a));
 	      break;
 	    case 'z': // zpg
 	      l= rom->get(addr+1);
@@ -397,7 +397,7 @@ cl_mos6502::disassc(t_addr addr, chars *comment)
 	      a= h*256+l;
 	      work.appendf("($%04x,X)", a);
 	      a+= rX;
-	      temp.appendf("; [$%04x]=$%04x", a, read_addr(rom, a));
+	      temp.appendf("; [$%04x]=$%04x", a, get_addr(rom, a));
 	      break;
 	    case 'i': // abs,X
 	      l= rom->get(addr+1);
@@ -446,15 +446,15 @@ cl_mos6502::disassc(t_addr addr, chars *comment)
 	      work.appendf("#$%02x", l);
 	      break;
 	    case '3': // (ind16)
-	      a= read_addr(rom, addr+1);
-	      a= read_addr(rom, a);
+	      a= get_addr(rom, addr+1);
+	      a= get_addr(rom, a);
 	      work.appendf("($%04x)", a);
 	      addr_name(a, rom, &work);
 	      break;
 	    case '4': // (zind)
 	      a= rom->get(addr+1);
 	      work.appendf("($%04x)", a);
-	      a= read_addr(rom, a);
+	      a= get_addr(rom, a);
 	      addr_name(a, rom, &work);
 	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
-- 
2.43.0


From 26b7d4c44866894cef3e84a5fbabce740970a873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:06 +0000
Subject: [PATCH 056/119] fix: reading input at end of file, bytes above 0x7f
 and last line without newline

---
 src/core/utils.src/fio.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/core/utils.src/fio.cc b/src/core/utils.src/fio.cc
index 837a48a..fb5a42f 100644
--- a/src/core/utils.src/fio.cc
+++ b/src/core/utils.src/fio.cc
@@ -686,7 +686,7 @@ cl_f::process(char c)
 	  echo_write(&c, 1);
 	}
       last_ln= 0;
-      return put(c);
+      return put(c & 0xff);
     }
 
   int l= strlen(line);
@@ -922,7 +922,10 @@ cl_f::get_c(void)
 {
   int c;
   while (!check_dev())
-    ;
+    {
+      if (eof())
+	return 0;
+    }
   int i= read_dev(&c, 1);
   if (i > 0)
     return c;
@@ -946,15 +949,12 @@ cl_f::get_s(void)
 	return s;
       c= get_c();
     }
-  if (eof())
-    return s;
-  s+= c;
-  c= get_c();
-  while (!eof() &&
-	 (c != '\n') &&
+  while ((c != '\n') &&
 	 (c != '\r'))
     {
       s+= c;
+      if (eof())
+	break;
       c= get_c();
     }
   return s;
-- 
2.43.0


From b174e1878a7e871ce452bca942b15718e72f9d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:06 +0000
Subject: [PATCH 057/119] fix: file loaders: word assembly, selected memory,
 OMF addresses, last lines, record resync

---
 src/core/sim.src/memcl.h |   1 +
 src/core/sim.src/uc.cc   | 353 ++++++++++++++++++---------------------
 2 files changed, 166 insertions(+), 188 deletions(-)

diff --git a/src/core/sim.src/memcl.h b/src/core/sim.src/memcl.h
index 9d99023..ffd1c89 100644
--- a/src/core/sim.src/memcl.h
+++ b/src/core/sim.src/memcl.h
@@ -738,6 +738,7 @@ class cl_banker: public cl_address_decoder
   virtual void undecoded() { bank= -1; }
   virtual bool activate(class cl_console_base *con);
   virtual bool switch_to(int bank_nr, class cl_console_base *con);
+  virtual int current_bank(void) { return bank; }
   virtual bool uses_chip(class cl_memory *chip);
   
   virtual void print_info(const char *pre, class cl_console_base *con);
diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index d8890d0..5fa1ff7 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -532,6 +532,7 @@ cl_inspec::cl_inspec(chars aspec, class cl_uc *auc)
   offset_name= "0";
   offset= 0;
   uc= auc;
+  mem= uc?(uc->rom):NULL;
   use_min= 0;
   use_max= 0xffffffff;
 }
@@ -1425,32 +1426,42 @@ cl_uc::remove_chip(class cl_memory *chip)
 }
 
 
+// Character which is not a hex digit is left in the input, it can be
+// the beginning of the next record
+
+static bool
+read_hex_digit(cl_f *f, char *digit)
+{
+  int c= f->get_c();
+  if ((c <= 0) || (c > 0xff))
+    return false;
+  if (!isxdigit(c))
+    {
+      f->unget(c);
+      return false;
+    }
+  *digit= c;
+  return true;
+}
+
+
 static long
 ReadInt(cl_f *f, bool *ok, int bytes)
 {
   char s2[3];
   long l= 0;
-  int c;
   
   *ok= false;
   while (bytes)
     {
       if (f->eof())
 	return(0);
-      c= f->get_c();
-      if ((c < 0) ||
-	  (c == 0) ||
-	  (c > 0xff))
+      if (!read_hex_digit(f, &s2[0]))
 	return 0;
-      s2[0]= c;
       if (f->eof())
 	return(0);
-      c= f->get_c();
-      if ((c < 0) ||
-	  (c == 0) ||
-	  (c > 0xff))
+      if (!read_hex_digit(f, &s2[1]))
 	return 0;
-      s2[1]= c;
       s2[2]= '\0';
       l= l*256 + strtol(s2, NULL, 16);
       bytes--;
@@ -1483,11 +1494,15 @@ cl_uc::set_rom(class cl_inspec *is, t_addr addr, t_mem val, bool check)
     return eq;
   addr+= is->offset;
   t_addr size= mem->get_size();
+  if (mem->width < 32)
+    val&= (1U << mem->width)-1;
   if (mem->is_chip())
     {
+      if (!mem->valid_address(addr))
+	return eq;
       if (check)
 	{
-	  v= mem->read(addr);
+	  v= mem->get(addr);
 	  if (!(eq= val == v))
 	    application->dd_printf("Diff at %08x, FILE=%08x MEM=%08x\n",
 				   AU32(addr), MU32(val), MU32(v));
@@ -1503,27 +1518,39 @@ cl_uc::set_rom(class cl_inspec *is, t_addr addr, t_mem val, bool check)
     {
       if (check)
 	{
-	  v= rom->read(addr);
+	  v= mem->get(addr);
 	  if (!(eq= val == v))
 	    application->dd_printf("Diff at %08x, FILE=%08x MEM=%08x\n",
 				   AU32(addr), MU32(val), MU32(v));
 	}
       else
-	rom->download(addr, val);
+	((class cl_address_space *)mem)->download(addr, val);
       return eq;
     }
   t_addr bank, caddr;
   bank= addr / size;
   caddr= addr % size;
-  class cl_banker *d= (class cl_banker *)(rom->get_decoder_of(caddr));
+  class cl_banker *d= (class cl_banker *)(((class cl_address_space *)mem)->get_decoder_of(caddr));
   if (d)
     {
       if (!d->is_banker())
 	{
 	  return true;
 	}
+      int prev= d->current_bank();
       d->switch_to(bank, NULL);
-      rom->download(caddr, val);
+      if (d->current_bank() != (int)bank)
+	; // there is no such bank
+      else if (check)
+	{
+	  v= mem->get(caddr);
+	  if (!(eq= val == v))
+	    application->dd_printf("Diff at %08x, FILE=%08x MEM=%08x\n",
+				   AU32(addr), MU32(val), MU32(v));
+	}
+      else
+	((class cl_address_space *)mem)->download(caddr, val);
+      d->switch_to(prev, NULL);
       d->activate(NULL);
     }
   else
@@ -1532,6 +1559,57 @@ cl_uc::set_rom(class cl_inspec *is, t_addr addr, t_mem val, bool check)
   return eq;
 }
 
+// Collect bytes of a file into words of the memory, lower byte goes
+// first. A word which is not complete in the file is filled up by zeros.
+
+class cl_word_collector
+{
+protected:
+  class cl_uc *uc;
+  class cl_inspec *is;
+  bool check, used;
+  t_addr addr;
+  t_mem val;
+  unsigned int bytes;
+public:
+  long written;
+  cl_word_collector(class cl_uc *auc, class cl_inspec *ais, bool acheck)
+  {
+    uc= auc;
+    is= ais;
+    check= acheck;
+    used= false;
+    addr= 0;
+    val= 0;
+    bytes= (is->get_mem()->width + 7) / 8;
+    if (bytes < 1)
+      bytes= 1;
+    written= 0;
+  }
+  void put(t_addr byte_addr, u8_t data)
+  {
+    t_addr a= byte_addr / bytes;
+    unsigned int lane= byte_addr % bytes;
+    if (used && (a != addr))
+      flush();
+    addr= a;
+    used= true;
+    val|= ((t_mem)data) << (lane*8);
+    if (lane == bytes-1)
+      flush();
+  }
+  void flush(void)
+  {
+    if (used)
+      {
+	uc->set_rom(is, addr, val, check);
+	written++;
+      }
+    used= false;
+    val= 0;
+  }
+};
+
 long
 cl_uc::read_hex_file(const char *nam, bool check)
 {
@@ -1578,7 +1656,7 @@ long
 cl_uc::read_hex_file(class cl_inspec *is, cl_f *f, bool check)
 {
   int c;
-  long written= 0, recnum= 0;
+  long recnum= 0;
 
   uint  base= 0;  // extended address, added to every address
   uchar dnum;     // data number
@@ -1589,8 +1667,6 @@ cl_uc::read_hex_file(class cl_inspec *is, cl_f *f, bool check)
   uchar chk ;     // check
   int  i;
   bool ok;
-  int get_low= 0;
-  uchar lows[4]= { 0, 0, 0, 0 };
   class cl_memory *mem= is->get_mem();
   if (!mem)
     {
@@ -1599,25 +1675,28 @@ cl_uc::read_hex_file(class cl_inspec *is, cl_f *f, bool check)
       return(-1);
     }
 
+  class cl_word_collector wc(this, is, check);
   //memset(inst_map, '\0', sizeof(inst_map));
-  ok= true;
-  while (ok &&
-	 rtyp != 1)
+  while (rtyp != 1)
     {
-      while (((c= /*getc(f)*/f->get_c()) != ':') &&
-	     (/*c != EOF*/!f->eof()));
+      c= 0;
+      while (!f->eof() &&
+	     ((c= f->get_c()) != ':')) ;
       if (c != ':')
 	{
 	  fprintf(stderr, ": not found\n");
 	  break;
 	}
       recnum++;
+      rtyp= 0;
       dnum= ReadInt(f, &ok, 1);
       chk = dnum;
-      addr= ReadInt(f, &ok, 2);
+      if (ok)
+	addr= ReadInt(f, &ok, 2);
       chk+= (addr & 0xff);
       chk+= ((addr >> 8) & 0xff);
-      rtyp= ReadInt(f, &ok, 1);
+      if (ok)
+	rtyp= ReadInt(f, &ok, 1);
       chk+= rtyp;
       for (i= 0; ok && (i < dnum); i++)
 	{
@@ -1633,57 +1712,14 @@ cl_uc::read_hex_file(class cl_inspec *is, cl_f *f, bool check)
 		{
 		  if (rtyp == 0)
 		    {
-		      if (mem->width > 8)
-			{
-			  if (mem->width <= 16)
-			    addr/= 2;
-			  else if (mem->width <= 24)
-			    addr/= 3;
-			  else if (mem->width <= 32)
-			    addr/= 4;
-			}
 		      for (i= 0; i < dnum; i++)
+			wc.put(base+addr+i, rec[i]);
+		    }
+		  else if (rtyp == 2)
+		    {
+		      if (dnum >= 2)
 			{
-			  if (mem->width <= 8)
-			    {
-			      set_rom(is, base+addr, rec[i], check);
-			      addr++;
-			      written++;
-			    }
-			  else if (mem->width <= 16)
-			    {
-			      switch (get_low)
-				{
-				case 0: lows[0]= rec[i]; get_low++; break;
-				case 1: lows[1]= rec[i];
-				  set_rom(is, base+addr, (lows[1]*256)+lows[0], check);
-				  addr++;
-				  written++;
-				  get_low= 0;
-				  break;
-				}
-			    }
-			  else if (mem->width <= 32)
-			    {
-			      switch (get_low)
-				{
-				case 0: lows[0]= rec[i]; get_low++; break;
-				case 1: lows[1]= rec[i]; get_low++; break;
-				case 2: lows[2]= rec[i]; get_low++; break;
-				case 3: lows[3]= rec[i];
-				  set_rom(is, base+addr,
-					  (lows[3]<<24)+
-					  (lows[2]<<16)+
-					  (lows[1]<<8)+
-					  (lows[0]),
-					  check);
-				  get_low= 0;
-				  lows[3]= lows[2]= lows[1]= lows[0]= 0;
-				  addr++;
-				  written++;
-				  break;
-				}
-			    }
+			  base= (rec[0]*256+rec[1]) << 4;
 			}
 		    }
 		  else if (rtyp == 4)
@@ -1699,26 +1735,22 @@ cl_uc::read_hex_file(class cl_inspec *is, cl_f *f, bool check)
 			      rtyp, rtyp);
 		}
 	      else
-		fprintf(stderr, "Checksum error (%x instead of %x) in "
-			"record %ld.\n", chk, sum, recnum);
+		{
+		  fprintf(stderr, "Checksum error (%x instead of %x) in "
+			  "record %ld.\n", chk, sum, recnum);
+		  rtyp= 0;
+		}
 	    }
-	  else
-	    fprintf(stderr, "Read error in record %ld.\n", recnum);
+	}
+      if (!ok)
+	{
+	  fprintf(stderr, "Read error in record %ld.\n", recnum);
+	  rtyp= 0;
 	}
     }
-  if (mem->width > 8)
-    {
-      for (i= get_low; i<4; i++)
-	lows[i]= 0;
-      set_rom(is, addr,
-	      (lows[3]<<24)+
-	      (lows[2]<<16)+
-	      (lows[1]<<8)+
-	      (lows[0]),
-	      check);
-    }
+  wc.flush();
   
-  return(written);
+  return(wc.written);
 }
 
 long
@@ -1735,7 +1767,8 @@ cl_uc::read_omf_file(class cl_inspec *is, cl_f *f, bool check)
 	  int i= 3;
 	  while (i < rec.len)
 	    {
-	      set_rom(is, addr+i, rec.rec[i], check);
+	      // data follows segment id and offset
+	      set_rom(is, addr+i-3, rec.rec[i], check);
 	      written++;
 	      i++;
 	    }
@@ -1749,47 +1782,30 @@ cl_uc::read_asc_file(class cl_inspec *is, cl_f *f, bool check)
 {
   int c;
   chars line= chars();
-  bool in;
   t_addr addr= 0;
   
-  in= true;
-  while ((c= f->get_c()) &&
-	 (!f->eof()))
+  while (!f->eof())
     {
-      if (in)
-	{
-	  if ((c=='\n') || (c=='\r'))
-	    {
-	      in= false;
-	      {
-		chars word= chars();
-		const char *s;
-		// process
-		line.trim();
-		line.start_parse();
-		word= line.token(" ");
-		s= word.c_str();
-		if (isxdigit(*s))
-		  {
-		    t_mem d= chars(s).htoi();
-		    set_rom(is, addr, d, check);
-		    addr++;
-		  }
-		line= "";
-	      }
-	    }
-	  else
-	    line.append(c);
-	}
-      else // out
+      c= f->get_c();
+      bool nl= (c=='\n') || (c=='\r');
+      if (!nl)
+	line.append(c);
+      if (nl || f->eof())
 	{
-	  if ((c=='\n') || (c=='\r'))
-	    ;
-	  else
+	  chars word= chars();
+	  const char *s;
+	  // process
+	  line.trim();
+	  line.start_parse();
+	  word= line.token(" ");
+	  s= word.c_str();
+	  if (s && isxdigit(*s))
 	    {
-	      in= true;
-	      line.append(c);
+	      t_mem d= chars(s).htoi();
+	      set_rom(is, addr, d, check);
+	      addr++;
 	    }
+	  line= "";
 	}
     }
   return addr;
@@ -1801,10 +1817,13 @@ cl_uc::read_p2h_file(class cl_inspec *is, cl_f *f, bool check)
   chars line= chars();
   int c;
   long nr= 0;
-  while ((c= f->get_c()) &&
-	 (!f->eof()))
+  while (!f->eof())
     {
-      if ((c=='\n') || (c=='\r'))
+      c= f->get_c();
+      bool nl= (c=='\n') || (c=='\r');
+      if (!nl)
+	line.append(c);
+      if (nl || f->eof())
 	{
 	  line.trim();
 	  line.start_parse();
@@ -1823,8 +1842,6 @@ cl_uc::read_p2h_file(class cl_inspec *is, cl_f *f, bool check)
 	    }
 	  line= "";
 	}
-      else
-	line.append(c);
     }
   return nr;
 }
@@ -2071,58 +2088,14 @@ static t_addr a32(const char *s, int p)
   return a;
 }
 
-static int s19(class cl_inspec *is, class cl_uc *uc, t_addr a, const char *s, int p, int data_bytes, bool check)
+static void s19(class cl_word_collector *wc, t_addr a, const char *s, int p, int data_bytes)
 {
-  int b= 0;
-  u8_t d, d0, d1, d2, d3;
-  t_mem v;
-  if (data_bytes < 1)
-    return 0;
-  if (is->get_mem()->width > 8)
+  int b;
+  for (b= 0; b < data_bytes; b++)
     {
-      if (is->get_mem()->width <= 16) a/= 2;
-      if (is->get_mem()->width <= 24) a/= 3;
-      if (is->get_mem()->width <= 32) a/= 4;
+      wc->put(a+b, h2(s, p));
+      p+= 2;
     }
-  while (b < data_bytes)
-    {
-      if (is->get_mem()->width <= 8)
-	{
-	  d= h2(s, p);
-	  uc->set_rom(is, a, d, check);
-	  a++;
-	  p+= 2;
-	  b++;
-	}
-      else if (is->get_mem()->width <= 16)
-	{
-	  d0= h2(s, p); p+= 2; b++;
-	  d1= h2(s, p); p+= 2; b++;
-	  v= (d1<<8)+d0;
-	  uc->set_rom(is, a, v, check);
-	  a++;
-	}
-      else if (is->get_mem()->width <= 24)
-	{
-	  d0= h2(s, p); p+= 2; b++;
-	  d1= h2(s, p); p+= 2; b++;
-	  d2= h2(s, p); p+= 2; b++;
-	  v= (d2<<16)+(d1<<8)+d0;
-	  uc->set_rom(is, a, v, check);
-	  a++;
-	}
-      else if (is->get_mem()->width <= 32)
-	{
-	  d0= h2(s, p); p+= 2; b++;
-	  d1= h2(s, p); p+= 2; b++;
-	  d2= h2(s, p); p+= 2; b++;
-	  d3= h2(s, p); p+= 2; b++;
-	  v= (d3<<24)+(d2<<16)+(d1<<8)+d0;
-	  uc->set_rom(is, a, v, check);
-	  a++;
-	}
-    }
-  return data_bytes;
 }
 
 long
@@ -2130,7 +2103,7 @@ cl_uc::read_s19_file(class cl_inspec *is, cl_f *f, bool check)
 {
   chars line;
   int cnt;
-  long int written= 0;
+  class cl_word_collector wc(this, is, check);
   while (!f->eof())
     {
       line= f->get_s();
@@ -2147,13 +2120,16 @@ cl_uc::read_s19_file(class cl_inspec *is, cl_f *f, bool check)
       int b= 0, sum= 0, p= 2;
       while (b<cnt)
 	{
-	  if (s[p] && s[p+1])
-	    sum+= h2(s, p);
+	  if (!isxdigit(s[p]) || !isxdigit(s[p+1]))
+	    break;
+	  sum+= h2(s, p);
 	  b++;
 	  p+= 2;
 	}
       if (b!=cnt)
 	continue;
+      if (!isxdigit(s[p]) || !isxdigit(s[p+1]))
+	continue;
       int chk= h2(s, 2+cnt*2);
       sum&= 0xff;
       sum^= 0xff;
@@ -2166,17 +2142,17 @@ cl_uc::read_s19_file(class cl_inspec *is, cl_f *f, bool check)
 	case '1':
 	  a= a16(s, 4);
 	  p=  8;
-	  written+= s19(is, this, a, s, p, cnt-2-1, check);
+	  s19(&wc, a, s, p, cnt-2-1);
 	  break;
 	case '2':
 	  a= a24(s, 4);
 	  p= 10;
-	  written+= s19(is, this, a, s, p, cnt-3-1, check);
+	  s19(&wc, a, s, p, cnt-3-1);
 	  break;
 	case '3':
 	  a= a32(s, 4);
 	  p= 12;
-	  written+= s19(is, this, a, s, p, cnt-4-1, check);
+	  s19(&wc, a, s, p, cnt-4-1);
 	  break;
 	case '4': break;
 	case '5': break;
@@ -2186,7 +2162,8 @@ cl_uc::read_s19_file(class cl_inspec *is, cl_f *f, bool check)
 	case '9': break;
 	}
     }
-  return written;
+  wc.flush();
+  return wc.written;
 }
 
 cl_f *
-- 
2.43.0


From 09bc1ec278b6cca14674cb57be4ef644e998dce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:58 +0000
Subject: [PATCH 058/119] fix: assigning to bits in expressions set the wrong
 bits

The new value was masked with the in-place mask before it was shifted, so
only bit 0 ranges were right, and the result was the whole cell.
---
 src/core/cmd.src/cmdpars.y | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/core/cmd.src/cmdpars.y b/src/core/cmd.src/cmdpars.y
index c3aad3b..5a9b9d4 100644
--- a/src/core/cmd.src/cmdpars.y
+++ b/src/core/cmd.src/cmdpars.y
@@ -8,6 +8,15 @@
   //#include "stypes.h"
 
 static void yyerror (const char *msg);
+
+static t_mem
+bits_mask(int high, int low)
+{
+  t_mem mask= 0;
+  for (int i= low; i <= high; i++)
+    mask|= (t_mem)1 << i;
+  return mask;
+}
 %}
 /*%expect 6*/
 
@@ -144,8 +153,7 @@ primary_expr
 : memory { $$= $1.memory->read($1.address); }
 | bit
 	{
-		t_mem mask = 0;
-		for (int i = $1.bitnr_low; i <= $1.bitnr_high; mask |= 1U << i++);
+		t_mem mask = bits_mask($1.bitnr_high, $1.bitnr_low);
 		$$= ($1.memory->read($1.mem_address) & mask) >> $1.bitnr_low;
 	}
 | PTOK_NUMBER { $$= $1; }
@@ -385,11 +393,15 @@ assignment_expr
 	}
 | bit PTOK_EQUAL assignment_expr
 	{
-		t_mem mask = 0;
-		for (int i = $1.bitnr_low; i <= $1.bitnr_high; mask |= 1U << i++);
-		mask= ($1.memory->read($1.mem_address) & (~mask)) | (($3 & mask) << $1.bitnr_low);
-		$1.memory->write($1.mem_address, mask);
-		$$= mask;
+		t_mem mask = bits_mask($1.bitnr_high, $1.bitnr_low);
+		t_mem val= $3;
+		// a single bit is set by any non-zero value
+		if ($1.bitnr_high == $1.bitnr_low)
+		  val= ($3)?1:0;
+		$1.memory->write($1.mem_address,
+				 ($1.memory->read($1.mem_address) & (~mask)) |
+				 ((val << $1.bitnr_low) & mask));
+		$$= ($1.memory->read($1.mem_address) & mask) >> $1.bitnr_low;
 	}
 | PTOK_CELL assignment_operator assignment_expr
 	{
-- 
2.43.0


From 2a2746f74876d9fe98038ec1e7ac148cce23bfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:54 +0000
Subject: [PATCH 059/119] fix: a variable of some bits was evaluated as the
 whole cell

---
 src/core/cmd.src/cmdlex.l  | 14 ++++++++++++++
 src/core/cmd.src/cmdpars.y | 15 ++++++++++++---
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/core/cmd.src/cmdlex.l b/src/core/cmd.src/cmdlex.l
index b9835bf..ed62619 100644
--- a/src/core/cmd.src/cmdlex.l
+++ b/src/core/cmd.src/cmdlex.l
@@ -204,6 +204,20 @@ uc_yy_check_id(char *token)
       
       t_addr addr;
       bool found;
+      t_index vi;
+      if (uc->vars->by_name.search(token, vi))
+	{
+	  class cl_cvar *v= uc->vars->by_name.at(vi);
+	  if (v->is_mem_var() && (v->bitnr_low >= 0) && (v->bitnr_high >= 0))
+	    {
+	      yylval.bit.memory= v->get_mem();
+	      yylval.bit.mem_address= v->get_addr();
+	      yylval.bit.bit_address= -1;
+	      yylval.bit.bitnr_high= v->bitnr_high;
+	      yylval.bit.bitnr_low= v->bitnr_low;
+	      return PTOK_BITS;
+	    }
+	}
       if ((found= uc->symbol2address(yytext, &mem, &addr)))
 	  {
 	      yylval.memory.memory= mem;
diff --git a/src/core/cmd.src/cmdpars.y b/src/core/cmd.src/cmdpars.y
index 5a9b9d4..edc1807 100644
--- a/src/core/cmd.src/cmdpars.y
+++ b/src/core/cmd.src/cmdpars.y
@@ -63,7 +63,7 @@ bits_mask(int high, int low)
 
 %type <number> type_name assignment_operator
 
-%type <memory> memory
+%type <memory> memory bit_memory
 %type <bit> bit
 
 %union {
@@ -475,9 +475,18 @@ memory:
 	  }
 	;
 
+bit_memory:
+	  memory
+	| PTOK_BITS
+	  {
+	    $$.memory= $1.memory;
+	    $$.address= $1.mem_address;
+	  }
+	;
+
 bit:
 	  PTOK_BITS
-	| memory PTOK_DOT expr
+	| bit_memory PTOK_DOT expr
 	  {
 	    $$.memory= $1.memory;
 	    $$.mem_address= $1.address;
@@ -487,7 +496,7 @@ bit:
 	    if (uc)
 	      $$.bit_address= uc->bit_address($1.memory, $1.address, $3);
 	  }
-	| memory PTOK_LEFT_BRACKET expr PTOK_COLON expr PTOK_RIGHT_BRACKET
+	| bit_memory PTOK_LEFT_BRACKET expr PTOK_COLON expr PTOK_RIGHT_BRACKET
 	  {
 	    $$.memory= $1.memory;
 	    $$.mem_address= $1.address;
-- 
2.43.0


From 05cefafbf8867140e0ffcb35cb692e0daade91b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:15 +0000
Subject: [PATCH 060/119] fix: division by zero in an expression killed the
 simulator

---
 src/core/cmd.src/cmdpars.y | 58 ++++++++++++++++++++++++++++++++++----
 1 file changed, 52 insertions(+), 6 deletions(-)

diff --git a/src/core/cmd.src/cmdpars.y b/src/core/cmd.src/cmdpars.y
index edc1807..71856ab 100644
--- a/src/core/cmd.src/cmdpars.y
+++ b/src/core/cmd.src/cmdpars.y
@@ -17,6 +17,34 @@ bits_mask(int high, int low)
     mask|= (t_mem)1 << i;
   return mask;
 }
+
+static bool
+divisor_ok(long divisor)
+{
+  if (divisor != 0)
+    return true;
+  yyerror("Divide by zero");
+  return false;
+}
+
+static long
+divide(long a, long b)
+{
+  if (b == 0)
+    return 0;
+  if (b == -1)
+    return (long)(0 - (unsigned long)a);
+  return a / b;
+}
+
+static long
+modulo(long a, long b)
+{
+  if ((b == 0) || (b == -1))
+    return 0;
+  return a % b;
+}
+
 %}
 /*%expect 6*/
 
@@ -285,8 +313,18 @@ type_name
 multiplicative_expr
 : cast_expr { $$= $1; }
 | multiplicative_expr PTOK_ASTERIX cast_expr { $$= $1 * $3; }
-| multiplicative_expr PTOK_SLASH cast_expr { $$= $1 / $3; }
-| multiplicative_expr PTOK_PERCENT cast_expr { $$= $1 % $3; }
+| multiplicative_expr PTOK_SLASH cast_expr
+	{
+	  if (!divisor_ok($3))
+	    YYABORT;
+	  $$= divide($1, $3);
+	}
+| multiplicative_expr PTOK_PERCENT cast_expr
+	{
+	  if (!divisor_ok($3))
+	    YYABORT;
+	  $$= modulo($1, $3);
+	}
 ;
 
 additive_expr
@@ -362,10 +400,14 @@ assignment_expr
 	      $1.memory->write($1.address, org *= $3);
 	      break;
 	    case PTOK_DIV_ASSIGN:
-	      $1.memory->write($1.address, org /= $3);
+	      if (!divisor_ok($3))
+		YYABORT;
+	      $1.memory->write($1.address, divide(org, $3));
 	      break;
 	    case PTOK_MOD_ASSIGN:
-	      $1.memory->write($1.address, org %= $3);
+	      if (!divisor_ok($3))
+		YYABORT;
+	      $1.memory->write($1.address, modulo(org, $3));
 	      break;
 	    case PTOK_ADD_ASSIGN:
 	      $1.memory->write($1.address, org += $3);
@@ -416,10 +458,14 @@ assignment_expr
 	      $1->write(org *= $3);
 	      break;
 	    case PTOK_DIV_ASSIGN:
-	      $1->write(org /= $3);
+	      if (!divisor_ok($3))
+		YYABORT;
+	      $1->write(divide(org, $3));
 	      break;
 	    case PTOK_MOD_ASSIGN:
-	      $1->write(org %= $3);
+	      if (!divisor_ok($3))
+		YYABORT;
+	      $1->write(modulo(org, $3));
 	      break;
 	    case PTOK_ADD_ASSIGN:
 	      $1->write(org += $3);
-- 
2.43.0


From cd4d75c4409b9c0c0120dd16353f71a79cc119a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:37 +0000
Subject: [PATCH 061/119] fix: unselected operands of && || and ?: were
 evaluated in expressions

---
 src/core/cmd.src/cmdpars.y | 102 ++++++++++++++++++++++++-------------
 1 file changed, 66 insertions(+), 36 deletions(-)

diff --git a/src/core/cmd.src/cmdpars.y b/src/core/cmd.src/cmdpars.y
index 71856ab..8d4bd20 100644
--- a/src/core/cmd.src/cmdpars.y
+++ b/src/core/cmd.src/cmdpars.y
@@ -18,10 +18,27 @@ bits_mask(int high, int low)
   return mask;
 }
 
+// Greater than zero in operands which must not be evaluated
+static int skip= 0;
+
+static void
+mem_write(class cl_memory *mem, t_addr addr, t_mem val)
+{
+  if (!skip)
+    mem->write(addr, val);
+}
+
+static void
+cell_write(class cl_memory_cell *cell, t_mem val)
+{
+  if (!skip)
+    cell->write(val);
+}
+
 static bool
 divisor_ok(long divisor)
 {
-  if (divisor != 0)
+  if ((divisor != 0) || skip)
     return true;
   yyerror("Divide by zero");
   return false;
@@ -112,7 +129,7 @@ modulo(long a, long b)
 %%
 
 ucsim_grammar:
-expr { application->/*dd_printf("%d\n", $1)*/expr_result=$1; }
+{ skip= 0; } expr { application->/*dd_printf("%d\n", $2)*/expr_result=$2; }
 	;
 /*
 assignment:
@@ -202,23 +219,23 @@ postfix_expr
 | memory PTOK_INC_OP
 	{
 	  $$= $1.memory->read($1.address);
-	  $1.memory->write($1.address, $$+1);
+	  mem_write($1.memory, $1.address, $$+1);
 	}
 | PTOK_CELL PTOK_INC_OP
 	{
 	  $$= $1->read();
-	  $1->write($$+1);
+	  cell_write($1, $$+1);
 	}
 /*| postfix_expr PTOK_DEC_OP*/
 | memory PTOK_DEC_OP
 	{
 	  $$= $1.memory->read($1.address);
-	  $1.memory->write($1.address, $$-1);
+	  mem_write($1.memory, $1.address, $$-1);
 	}
 | PTOK_CELL PTOK_DEC_OP
 	{
 	  $$= $1->read();
-	  $1->write($$-1);
+	  cell_write($1, $$-1);
 	}
 ;
 /*
@@ -234,26 +251,26 @@ unary_expr
 | PTOK_INC_OP memory
 	{
 	  $$= $2.memory->read($2.address);
-	  $2.memory->write($2.address, $$+1);
+	  mem_write($2.memory, $2.address, $$+1);
 	  $$= $2.memory->read($2.address);
 	}
 | PTOK_INC_OP PTOK_CELL
 	{
 	  $$= $2->read();
-	  $2->write($$+1);
+	  cell_write($2, $$+1);
 	  $$= $2->read();
 	}
 /*| PTOK_DEC_OP unary_expr      */
 | PTOK_DEC_OP memory
 	{
 	  $$= $2.memory->read($2.address);
-	  $2.memory->write($2.address, $$-1);
+	  mem_write($2.memory, $2.address, $$-1);
 	  $$= $2.memory->read($2.address);
 	}
 | PTOK_DEC_OP PTOK_CELL
 	{
 	  $$= $2->read();
-	  $2->write($$-1);
+	  cell_write($2, $$-1);
 	  $$= $2->read();
 	}
 /*| unary_operator cast_expr	*/
@@ -370,17 +387,30 @@ inclusive_or_expr
 
 logical_and_expr
 : inclusive_or_expr { $$= $1; }
-| logical_and_expr PTOK_AND_OP inclusive_or_expr { $$= ($1 && $3)?1:0; }
+| logical_and_expr PTOK_AND_OP { if (!$1) skip++; } inclusive_or_expr
+	{
+	  if (!$1) skip--;
+	  $$= ($1 && $4)?1:0;
+	}
 ;
 
 logical_or_expr
 : logical_and_expr { $$= $1; }
-| logical_or_expr PTOK_OR_OP logical_and_expr { $$= ($1 || $3)?1:0; }
+| logical_or_expr PTOK_OR_OP { if ($1) skip++; } logical_and_expr
+	{
+	  if ($1) skip--;
+	  $$= ($1 || $4)?1:0;
+	}
 ;
 
 conditional_expr
 : logical_or_expr { $$= $1; }
-| logical_or_expr PTOK_QUESTION expr PTOK_COLON conditional_expr { $$= ($1)?($3):($5); }
+| logical_or_expr PTOK_QUESTION { if (!$1) skip++; } expr
+	{ if (!$1) skip--; } PTOK_COLON { if ($1) skip++; } conditional_expr
+	{
+	  if ($1) skip--;
+	  $$= ($1)?($4):($8);
+	}
 ;
 
 assignment_expr
@@ -394,41 +424,41 @@ assignment_expr
 	  switch ($2)
 	    {
 	    case PTOK_EQUAL:
-	      $1.memory->write($1.address, $3);
+	      mem_write($1.memory, $1.address, $3);
 	      break;
 	    case PTOK_MUL_ASSIGN:
-	      $1.memory->write($1.address, org *= $3);
+	      mem_write($1.memory, $1.address, org *= $3);
 	      break;
 	    case PTOK_DIV_ASSIGN:
 	      if (!divisor_ok($3))
 		YYABORT;
-	      $1.memory->write($1.address, divide(org, $3));
+	      mem_write($1.memory, $1.address, divide(org, $3));
 	      break;
 	    case PTOK_MOD_ASSIGN:
 	      if (!divisor_ok($3))
 		YYABORT;
-	      $1.memory->write($1.address, modulo(org, $3));
+	      mem_write($1.memory, $1.address, modulo(org, $3));
 	      break;
 	    case PTOK_ADD_ASSIGN:
-	      $1.memory->write($1.address, org += $3);
+	      mem_write($1.memory, $1.address, org += $3);
 	      break;
 	    case PTOK_SUB_ASSIGN:
-	      $1.memory->write($1.address, org -= $3);
+	      mem_write($1.memory, $1.address, org -= $3);
 	      break;
 	    case PTOK_LEFT_ASSIGN:
-	      $1.memory->write($1.address, org <<= $3);
+	      mem_write($1.memory, $1.address, org <<= $3);
 	      break;
 	    case PTOK_RIGHT_ASSIGN:
-	      $1.memory->write($1.address, org >>= $3);
+	      mem_write($1.memory, $1.address, org >>= $3);
 	      break;
 	    case PTOK_AND_ASSIGN:
-	      $1.memory->write($1.address, org &= $3);
+	      mem_write($1.memory, $1.address, org &= $3);
 	      break;
 	    case PTOK_XOR_ASSIGN:
-	      $1.memory->write($1.address, org ^= $3);
+	      mem_write($1.memory, $1.address, org ^= $3);
 	      break;
 	    case PTOK_OR_ASSIGN:
-	      $1.memory->write($1.address, org |= $3);
+	      mem_write($1.memory, $1.address, org |= $3);
 	      break;
 	    }
 	  $$= $1.memory->read($1.address);
@@ -440,7 +470,7 @@ assignment_expr
 		// a single bit is set by any non-zero value
 		if ($1.bitnr_high == $1.bitnr_low)
 		  val= ($3)?1:0;
-		$1.memory->write($1.mem_address,
+		mem_write($1.memory, $1.mem_address,
 				 ($1.memory->read($1.mem_address) & (~mask)) |
 				 ((val << $1.bitnr_low) & mask));
 		$$= ($1.memory->read($1.mem_address) & mask) >> $1.bitnr_low;
@@ -452,41 +482,41 @@ assignment_expr
 	  switch ($2)
 	    {
 	    case PTOK_EQUAL:
-	      $1->write($3);
+	      cell_write($1, $3);
 	      break;
 	    case PTOK_MUL_ASSIGN:
-	      $1->write(org *= $3);
+	      cell_write($1, org *= $3);
 	      break;
 	    case PTOK_DIV_ASSIGN:
 	      if (!divisor_ok($3))
 		YYABORT;
-	      $1->write(divide(org, $3));
+	      cell_write($1, divide(org, $3));
 	      break;
 	    case PTOK_MOD_ASSIGN:
 	      if (!divisor_ok($3))
 		YYABORT;
-	      $1->write(modulo(org, $3));
+	      cell_write($1, modulo(org, $3));
 	      break;
 	    case PTOK_ADD_ASSIGN:
-	      $1->write(org += $3);
+	      cell_write($1, org += $3);
 	      break;
 	    case PTOK_SUB_ASSIGN:
-	      $1->write(org -= $3);
+	      cell_write($1, org -= $3);
 	      break;
 	    case PTOK_LEFT_ASSIGN:
-	      $1->write(org <<= $3);
+	      cell_write($1, org <<= $3);
 	      break;
 	    case PTOK_RIGHT_ASSIGN:
-	      $1->write(org >>= $3);
+	      cell_write($1, org >>= $3);
 	      break;
 	    case PTOK_AND_ASSIGN:
-	      $1->write(org &= $3);
+	      cell_write($1, org &= $3);
 	      break;
 	    case PTOK_XOR_ASSIGN:
-	      $1->write(org ^= $3);
+	      cell_write($1, org ^= $3);
 	      break;
 	    case PTOK_OR_ASSIGN:
-	      $1->write(org |= $3);
+	      cell_write($1, org |= $3);
 	      break;
 	    }
 	  $$= $1->read();
-- 
2.43.0


From 285e39f479c80580ad392611b9d26c2ed97f1e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:44 +0000
Subject: [PATCH 062/119] fix: the documented logical xor operator was not
 known

---
 src/core/cmd.src/cmdlex.l  |  1 +
 src/core/cmd.src/cmdpars.y | 13 +++++++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/core/cmd.src/cmdlex.l b/src/core/cmd.src/cmdlex.l
index ed62619..58e84a0 100644
--- a/src/core/cmd.src/cmdlex.l
+++ b/src/core/cmd.src/cmdlex.l
@@ -31,6 +31,7 @@ static int uc_yy_input(char *buf, int max_size);
 "|="			return(PTOK_OR_ASSIGN);
 "&&"			return(PTOK_AND_OP);
 "||"			return(PTOK_OR_OP);
+"^^"			return(PTOK_XOR_OP);
 "++"			return(PTOK_INC_OP);
 "--"			return(PTOK_DEC_OP);
 "=="			return(PTOK_EQ_OP);
diff --git a/src/core/cmd.src/cmdpars.y b/src/core/cmd.src/cmdpars.y
index 8d4bd20..01ef801 100644
--- a/src/core/cmd.src/cmdpars.y
+++ b/src/core/cmd.src/cmdpars.y
@@ -72,7 +72,7 @@ modulo(long a, long b)
 %token PTOK_PERCENT PTOK_TILDE PTOK_QUESTION PTOK_COLON PTOK_EXCLAMATION
 %token PTOK_LESS PTOK_GREATER PTOK_COMMA
 
-%token PTOK_AND_OP PTOK_OR_OP
+%token PTOK_AND_OP PTOK_OR_OP PTOK_XOR_OP
 %token PTOK_INC_OP PTOK_DEC_OP
 %token PTOK_EQ_OP PTOK_NE_OP
 %token PTOK_GE_OP PTOK_LE_OP
@@ -103,7 +103,7 @@ modulo(long a, long b)
 %type <number> multiplicative_expr additive_expr shift_expr
 %type <number> relational_expr equality_expr
 %type <number> and_expr exclusive_or_expr inclusive_or_expr
-%type <number> logical_and_expr logical_or_expr
+%type <number> logical_and_expr logical_xor_expr logical_or_expr
 %type <number> conditional_expr assignment_expr
 
 %type <number> type_name assignment_operator
@@ -394,9 +394,14 @@ logical_and_expr
 	}
 ;
 
-logical_or_expr
+logical_xor_expr
 : logical_and_expr { $$= $1; }
-| logical_or_expr PTOK_OR_OP { if ($1) skip++; } logical_and_expr
+| logical_xor_expr PTOK_XOR_OP logical_and_expr { $$= (!$1 != !$3)?1:0; }
+;
+
+logical_or_expr
+: logical_xor_expr { $$= $1; }
+| logical_or_expr PTOK_OR_OP { if ($1) skip++; } logical_xor_expr
 	{
 	  if ($1) skip--;
 	  $$= ($1 || $4)?1:0;
-- 
2.43.0


From 6c43b328d82d705d9576a0b4136230d55fcd0940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:50 +0000
Subject: [PATCH 063/119] fix: an unknown name silently ended an expression

---
 src/core/cmd.src/cmdlex.l | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/cmd.src/cmdlex.l b/src/core/cmd.src/cmdlex.l
index 58e84a0..3ffbbfc 100644
--- a/src/core/cmd.src/cmdlex.l
+++ b/src/core/cmd.src/cmdlex.l
@@ -248,5 +248,6 @@ uc_yy_check_id(char *token)
        }
     }
 
-  return 0;
+  // not zero: that would mean end of the expression
+  return (unsigned char)token[0];
 }
-- 
2.43.0


From 95e52c417d9ea3d6bcf53f55ffe8e0808aaf3291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:23 +0000
Subject: [PATCH 064/119] fix: bits accept all assignment, increment and
 decrement operators

---
 src/core/cmd.src/cmdpars.y | 97 +++++++++++++++++++++++++++++++++-----
 1 file changed, 85 insertions(+), 12 deletions(-)

diff --git a/src/core/cmd.src/cmdpars.y b/src/core/cmd.src/cmdpars.y
index 01ef801..0974726 100644
--- a/src/core/cmd.src/cmdpars.y
+++ b/src/core/cmd.src/cmdpars.y
@@ -35,6 +35,20 @@ cell_write(class cl_memory_cell *cell, t_mem val)
     cell->write(val);
 }
 
+static t_mem
+bits_read(class cl_memory *mem, t_addr addr, int high, int low)
+{
+  return (mem->read(addr) & bits_mask(high, low)) >> low;
+}
+
+static t_mem
+bits_write(class cl_memory *mem, t_addr addr, int high, int low, t_mem val)
+{
+  t_mem mask= bits_mask(high, low);
+  mem_write(mem, addr, (mem->read(addr) & ~mask) | ((val << low) & mask));
+  return bits_read(mem, addr, high, low);
+}
+
 static bool
 divisor_ok(long divisor)
 {
@@ -198,8 +212,8 @@ primary_expr
 : memory { $$= $1.memory->read($1.address); }
 | bit
 	{
-		t_mem mask = bits_mask($1.bitnr_high, $1.bitnr_low);
-		$$= ($1.memory->read($1.mem_address) & mask) >> $1.bitnr_low;
+		$$= bits_read($1.memory, $1.mem_address,
+			      $1.bitnr_high, $1.bitnr_low);
 	}
 | PTOK_NUMBER { $$= $1; }
 | PTOK_CELL { $$= $1->read(); }
@@ -221,6 +235,11 @@ postfix_expr
 	  $$= $1.memory->read($1.address);
 	  mem_write($1.memory, $1.address, $$+1);
 	}
+| bit PTOK_INC_OP
+	{
+	  $$= bits_read($1.memory, $1.mem_address, $1.bitnr_high, $1.bitnr_low);
+	  bits_write($1.memory, $1.mem_address, $1.bitnr_high, $1.bitnr_low, $$+1);
+	}
 | PTOK_CELL PTOK_INC_OP
 	{
 	  $$= $1->read();
@@ -232,6 +251,11 @@ postfix_expr
 	  $$= $1.memory->read($1.address);
 	  mem_write($1.memory, $1.address, $$-1);
 	}
+| bit PTOK_DEC_OP
+	{
+	  $$= bits_read($1.memory, $1.mem_address, $1.bitnr_high, $1.bitnr_low);
+	  bits_write($1.memory, $1.mem_address, $1.bitnr_high, $1.bitnr_low, $$-1);
+	}
 | PTOK_CELL PTOK_DEC_OP
 	{
 	  $$= $1->read();
@@ -254,6 +278,11 @@ unary_expr
 	  mem_write($2.memory, $2.address, $$+1);
 	  $$= $2.memory->read($2.address);
 	}
+| PTOK_INC_OP bit
+	{
+	  $$= bits_read($2.memory, $2.mem_address, $2.bitnr_high, $2.bitnr_low);
+	  $$= bits_write($2.memory, $2.mem_address, $2.bitnr_high, $2.bitnr_low, $$+1);
+	}
 | PTOK_INC_OP PTOK_CELL
 	{
 	  $$= $2->read();
@@ -267,6 +296,11 @@ unary_expr
 	  mem_write($2.memory, $2.address, $$-1);
 	  $$= $2.memory->read($2.address);
 	}
+| PTOK_DEC_OP bit
+	{
+	  $$= bits_read($2.memory, $2.mem_address, $2.bitnr_high, $2.bitnr_low);
+	  $$= bits_write($2.memory, $2.mem_address, $2.bitnr_high, $2.bitnr_low, $$-1);
+	}
 | PTOK_DEC_OP PTOK_CELL
 	{
 	  $$= $2->read();
@@ -468,17 +502,56 @@ assignment_expr
 	    }
 	  $$= $1.memory->read($1.address);
 	}
-| bit PTOK_EQUAL assignment_expr
+| bit assignment_operator assignment_expr
 	{
-		t_mem mask = bits_mask($1.bitnr_high, $1.bitnr_low);
-		t_mem val= $3;
-		// a single bit is set by any non-zero value
-		if ($1.bitnr_high == $1.bitnr_low)
-		  val= ($3)?1:0;
-		mem_write($1.memory, $1.mem_address,
-				 ($1.memory->read($1.mem_address) & (~mask)) |
-				 ((val << $1.bitnr_low) & mask));
-		$$= ($1.memory->read($1.mem_address) & mask) >> $1.bitnr_low;
+	  t_mem org= bits_read($1.memory, $1.mem_address,
+			       $1.bitnr_high, $1.bitnr_low);
+	  switch ($2)
+	    {
+	    case PTOK_EQUAL:
+	      // a single bit is set by any non-zero value
+	      if ($1.bitnr_high == $1.bitnr_low)
+		org= ($3)?1:0;
+	      else
+		org= $3;
+	      break;
+	    case PTOK_MUL_ASSIGN:
+	      org *= $3;
+	      break;
+	    case PTOK_DIV_ASSIGN:
+	      if (!divisor_ok($3))
+		YYABORT;
+	      org= divide(org, $3);
+	      break;
+	    case PTOK_MOD_ASSIGN:
+	      if (!divisor_ok($3))
+		YYABORT;
+	      org= modulo(org, $3);
+	      break;
+	    case PTOK_ADD_ASSIGN:
+	      org += $3;
+	      break;
+	    case PTOK_SUB_ASSIGN:
+	      org -= $3;
+	      break;
+	    case PTOK_LEFT_ASSIGN:
+	      org <<= $3;
+	      break;
+	    case PTOK_RIGHT_ASSIGN:
+	      org >>= $3;
+	      break;
+	    case PTOK_AND_ASSIGN:
+	      org &= $3;
+	      break;
+	    case PTOK_XOR_ASSIGN:
+	      org ^= $3;
+	      break;
+	    case PTOK_OR_ASSIGN:
+	      org |= $3;
+	      break;
+	    }
+	  $$= bits_write($1.memory, $1.mem_address,
+			 $1.bitnr_high, $1.bitnr_low, org);
 	}
 | PTOK_CELL assignment_operator assignment_expr
 	{
-- 
2.43.0


From df41d0d62d4435d03c568551134e796b47724b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:08 +0000
Subject: [PATCH 065/119] fix: address of variables of bits, variables of all
 bits of a cell

---
 src/core/cmd.src/cmdlex.l  | 5 +++--
 src/core/cmd.src/cmdpars.y | 6 +-----
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/core/cmd.src/cmdlex.l b/src/core/cmd.src/cmdlex.l
index 3ffbbfc..16fdae3 100644
--- a/src/core/cmd.src/cmdlex.l
+++ b/src/core/cmd.src/cmdlex.l
@@ -209,11 +209,12 @@ uc_yy_check_id(char *token)
       if (uc->vars->by_name.search(token, vi))
 	{
 	  class cl_cvar *v= uc->vars->by_name.at(vi);
-	  if (v->is_mem_var() && (v->bitnr_low >= 0) && (v->bitnr_high >= 0))
+	  if (v->is_mem_var() && (v->bitnr_low >= 0) &&
+	      (v->bitnr_high - v->bitnr_low + 1 < (int)v->get_mem()->width))
 	    {
 	      yylval.bit.memory= v->get_mem();
 	      yylval.bit.mem_address= v->get_addr();
-	      yylval.bit.bit_address= -1;
+	      yylval.bit.bit_address= v->get_addr();
 	      yylval.bit.bitnr_high= v->bitnr_high;
 	      yylval.bit.bitnr_low= v->bitnr_low;
 	      return PTOK_BITS;
diff --git a/src/core/cmd.src/cmdpars.y b/src/core/cmd.src/cmdpars.y
index 0974726..ca87f48 100644
--- a/src/core/cmd.src/cmdpars.y
+++ b/src/core/cmd.src/cmdpars.y
@@ -509,11 +509,7 @@ assignment_expr
 	  switch ($2)
 	    {
 	    case PTOK_EQUAL:
-	      // a single bit is set by any non-zero value
-	      if ($1.bitnr_high == $1.bitnr_low)
-		org= ($3)?1:0;
-	      else
-		org= $3;
+	      org= $3;
 	      break;
 	    case PTOK_MUL_ASSIGN:
 	      org *= $3;
-- 
2.43.0


From 04c7dce404f96f6f9c3e98b1f9f8295d4850e9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:13 +0000
Subject: [PATCH 066/119] fix: octal escapes were known only if they started
 with zero and took any number of digits

---
 src/core/cmd.src/cmdutil.cc | 27 ++++++---------------------
 1 file changed, 6 insertions(+), 21 deletions(-)

diff --git a/src/core/cmd.src/cmdutil.cc b/src/core/cmd.src/cmdutil.cc
index 8854717..839e342 100644
--- a/src/core/cmd.src/cmdutil.cc
+++ b/src/core/cmd.src/cmdutil.cc
@@ -58,28 +58,13 @@ proc_escape(char *string, int *len)
 	  *(s+1))
 	{
 	  s++;
-	  if (*s == '0')
+	  if (*s >= '0' && *s <= '7')
 	    {
-	      if (!isdigit(*(s+1)))
-		{
-		  *p++= '\0';
-		  s++;
-		}
-	      else
-		{
-		  char *octal, *chk, data;
-		  int i, j;
-		  i= strspn(s, "01234567");
-		  octal= (char *)malloc(i+1);
-		  j= 0;
-		  while (*s &&
-			 (j < i))
-		    octal[j++]= *s++;
-		  octal[j]= '\0';
-		  data= strtol(octal, &chk, 8);
-		  if (!chk || !(*chk))
-		    *p++= data;
-		}
+	      // octal code: one, two or three digits
+	      int i, data= 0;
+	      for (i= 0; (i < 3) && (*s >= '0') && (*s <= '7'); i++)
+		data= data*8 + (*s++ - '0');
+	      *p++= data;
 	    }
 	  else
 	    if ((spec_c= strchr(spec_chars, *s)) != NULL)
-- 
2.43.0


From a0422c2d71e32afbd8fbc7b4b38b8381680bbf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:15 +0000
Subject: [PATCH 067/119] fix: 8051 timers count falling edges of pins, lost
 and stale edges

---
 src/sims/s51.src/timer0.cc | 8 ++++----
 src/sims/s51.src/timer2.cc | 8 ++------
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/sims/s51.src/timer0.cc b/src/sims/s51.src/timer0.cc
index 1ea1212..22d58b5 100644
--- a/src/sims/s51.src/timer0.cc
+++ b/src/sims/s51.src/timer0.cc
@@ -177,13 +177,11 @@ cl_timer0::write(class cl_memory_cell *cell, t_mem *val)
 	mode= 0;
       GATE= *val & mask_GATE;
       C_T = *val & mask_C_T;
-      T_edge= 0;
     }
   else if ((cell == cell_tcon) ||
 	   b)
     {
       TR= n & mask_TR;
-      T_edge= 0;
     }
 }
 
@@ -213,6 +211,8 @@ cl_timer0::tick(int cycles)
     case 2: do_mode2(cycles); break;
     case 3: do_mode3(cycles); break;
     }
+  // an edge which can not be counted now is lost
+  T_edge= 0;
   return(resGO);
 }
 
@@ -395,8 +395,8 @@ cl_timer0::happen(class cl_hw *where, enum hw_event he, void *params)
     {
       t_mem p3n= ep->new_pins & ep->new_value;
       t_mem p3o= ep->pins & ep->prev_value;
-      if ((p3n & mask_T) &&
-	  !(p3o & mask_T))
+      if (!(p3n & mask_T) &&
+	  (p3o & mask_T))
 	T_edge++;
       INT= p3n & mask_INT;
       //printf("timer%d p%dchanged (%02x,%02x->%02x,%02x) INT=%d(%02x) edge=%d(%02x)\n",id,where->id,ep->prev_value,ep->pins,ep->new_value,ep->new_pins,INT,mask_INT,T_edge,mask_T);
diff --git a/src/sims/s51.src/timer2.cc b/src/sims/s51.src/timer2.cc
index ef4a20e..5c8ac03 100644
--- a/src/sims/s51.src/timer2.cc
+++ b/src/sims/s51.src/timer2.cc
@@ -82,8 +82,6 @@ cl_timer2::added_to_uc(void)
 void
 cl_timer2::write(class cl_memory_cell *cell, t_mem *val)
 {
-  int oldmode= mode;
-  bool oldtr= TR;
   t_addr ba;
   bool b= bas->is_owned(cell, &ba);
   t_mem n= *val;
@@ -136,10 +134,6 @@ cl_timer2::write(class cl_memory_cell *cell, t_mem *val)
           bit_t2oe)
         mode= T2MODE_CLKOUT;
     }
-  if ((mode != oldmode) ||
-      (TR && !oldtr) ||
-      (!TR && oldtr))
-    T_edge= t2ex_edge= 0;
 }
 
 int
@@ -164,6 +158,8 @@ cl_timer2::tick(int cycles)
       break;
     default: break;
     }
+  // an edge which can not be counted now is lost
+  T_edge= t2ex_edge= 0;
   
   return(resGO);
 }
-- 
2.43.0


From 09a8a148c297336553e08e4c26143ad4bf361833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:17 +0000
Subject: [PATCH 068/119] fix: 8052 timer2 counted instructions instead of
 cycles in capture and reload modes

---
 src/sims/s51.src/timer2.cc | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/sims/s51.src/timer2.cc b/src/sims/s51.src/timer2.cc
index 5c8ac03..62b075e 100644
--- a/src/sims/s51.src/timer2.cc
+++ b/src/sims/s51.src/timer2.cc
@@ -220,10 +220,13 @@ cl_timer2::do_t2_capture(int cycles)
   if (C_T)
     (cycles= T_edge), T_edge= 0;
 
-  if (!cell_tl->set(cell_tl->get() + 1))
+  while (cycles--)
     {
-      if (!cell_th->set(cell_th->get() + 1))
-	cell_tcon->set(cell_tcon->get() | bmTF2);
+      if (!cell_tl->set(cell_tl->get() + 1))
+	{
+	  if (!cell_th->set(cell_th->get() + 1))
+	    cell_tcon->set(cell_tcon->get() | bmTF2);
+	}
     }
 }
 
@@ -249,13 +252,16 @@ cl_timer2::do_t2_reload(int cycles)
   if (C_T)
     (cycles= T_edge), T_edge= 0;
 
-  if (!cell_tl->set(cell_tl->get() + 1))
+  while (cycles--)
     {
-      if (!cell_th->set(cell_th->get() + 1))
+      if (!cell_tl->set(cell_tl->get() + 1))
 	{
-	  cell_tcon->set(cell_tcon->get() | mask_TF);
-	  cell_th->set(cell_rcap2h->get());
-	  cell_tl->set(cell_rcap2l->get());
+	  if (!cell_th->set(cell_th->get() + 1))
+	    {
+	      cell_tcon->set(cell_tcon->get() | mask_TF);
+	      cell_th->set(cell_rcap2h->get());
+	      cell_tl->set(cell_rcap2l->get());
+	    }
 	}
     }
 }
-- 
2.43.0


From c9779099f84120e4cadc4b2c4a794b58610e62a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:23 +0000
Subject: [PATCH 069/119] fix: 8052 timer2 mode was forgotten on write of
 T2CON, toggle EXF2 in up/down mode

---
 src/sims/s51.src/timer2.cc  | 56 +++++++++++++++++--------------------
 src/sims/s51.src/timer2cl.h |  1 +
 2 files changed, 27 insertions(+), 30 deletions(-)

diff --git a/src/sims/s51.src/timer2.cc b/src/sims/s51.src/timer2.cc
index 62b075e..bb6f909 100644
--- a/src/sims/s51.src/timer2.cc
+++ b/src/sims/s51.src/timer2.cc
@@ -36,6 +36,9 @@ cl_timer2::cl_timer2(class cl_uc *auc, int aid, const char *aid_string,
 {
   features= afeatures;
   exf2it= 0;
+  cell_t2mod= NULL;
+  bit_dcen= bit_t2oe= false;
+  RCLK= TCLK= CP_RL2= 0;
   mask_RCLK= bmRCLK;
   mask_TCLK= bmTCLK;
   mask_CP_RL2= bmCP_RL2;
@@ -95,8 +98,6 @@ cl_timer2::write(class cl_memory_cell *cell, t_mem *val)
       else
 	n&= ~m;
     }
-  if (exf2it)
-    exf2it->activate();
   if ((cell == cell_tcon) ||
       b)
     {
@@ -106,36 +107,36 @@ cl_timer2::write(class cl_memory_cell *cell, t_mem *val)
       TCLK= n & mask_TCLK;
       CP_RL2= n & mask_CP_RL2;
       EXEN2 = n & bmEXEN2;
-      if (!(RCLK || TCLK) &&
-	  !CP_RL2)
-	mode= T2MODE_RELOAD;
-      else if (!(RCLK || TCLK) &&
-	       CP_RL2)
-	mode= T2MODE_CAPTURE;
-      else if (RCLK || TCLK)
-	mode= T2MODE_BAUDRATE;
-      else
-	mode= T2MODE_OFF;
+      set_mode();
       inform_partners(EV_T2_MODE_CHANGED, &n);
     }
   else if (cell == cell_t2mod)
     {
       bit_dcen= (*val & bmDCEN) != 0;
       bit_t2oe= (*val & bmT2OE) != 0;
-      if ((features & t2_down) &&
-	  bit_dcen &&
-	  mode == T2MODE_RELOAD)
-	{
-	  mode= T2MODE_DOWN;
-	  if (exf2it)
-	    exf2it->deactivate();
-	}
-      if ((features & t2_clock_out) &&
-          bit_t2oe)
-        mode= T2MODE_CLKOUT;
+      set_mode();
     }
 }
 
+/* Both T2CON and T2MOD select the mode */
+
+void
+cl_timer2::set_mode(void)
+{
+  if ((features & t2_clock_out) && bit_t2oe)
+    mode= T2MODE_CLKOUT;
+  else if (RCLK || TCLK)
+    mode= T2MODE_BAUDRATE;
+  else if (CP_RL2)
+    mode= T2MODE_CAPTURE;
+  else if ((features & t2_down) && bit_dcen)
+    mode= T2MODE_DOWN;
+  else
+    mode= T2MODE_RELOAD;
+  if (exf2it)
+    exf2it->set_active_status(mode != T2MODE_DOWN);
+}
+
 int
 cl_timer2::tick(int cycles)
 { 
@@ -312,13 +313,8 @@ cl_timer2::do_t2_down(int cycles)
 	    }
 	}
     }
-  if (toggle &&
-      sfr)
-    {
-      class cl_memory_cell *p1= sfr->get_cell(P1);
-      if (p1)
-	p1->set(p1->get() ^ bmEXF2);
-    }
+  if (toggle)
+    cell_tcon->set(cell_tcon->get() ^ bmEXF2);
 }
 
 void
diff --git a/src/sims/s51.src/timer2cl.h b/src/sims/s51.src/timer2cl.h
index 2cc9cc1..40e4387 100644
--- a/src/sims/s51.src/timer2cl.h
+++ b/src/sims/s51.src/timer2cl.h
@@ -71,6 +71,7 @@ public:
   //virtual void new_hw_added(class cl_hw *new_hw);
 
   //virtual ulong read(class cl_mem *mem, long addr);
+  virtual void set_mode(void);
   virtual void write(class cl_memory_cell *cell, t_mem *val);
 
   //virtual void mem_cell_changed(class cl_mem *mem, t_addr addr);
-- 
2.43.0


From d8e8ef758375a6b1e63241ad572353d98d808f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:29 +0000
Subject: [PATCH 070/119] fix: 8051 accepted a low priority interrupt before a
 high priority one

---
 src/sims/s51.src/uc51.cc | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/sims/s51.src/uc51.cc b/src/sims/s51.src/uc51.cc
index b481313..4ce6525 100644
--- a/src/sims/s51.src/uc51.cc
+++ b/src/sims/s51.src/uc51.cc
@@ -1813,7 +1813,10 @@ cl_51core::do_interrupt(void)
     }
   if (!((ie= sfr->get(IE)) & bmEA))
     return(resGO);
-  class it_level *il= (class it_level *)(it_levels->top()), *IL= 0;
+  class it_level *il= (class it_level *)(it_levels->top());
+  class cl_it_src *req= NULL;
+  int req_pr= -1;
+  // sources are in polling order, first one of the highest level wins
   for (i= 0; i < it_sources->count; i++)
     {
       class cl_it_src *is= (class cl_it_src *)(it_sources->at(i));
@@ -1825,21 +1828,28 @@ cl_51core::do_interrupt(void)
 	  if (il->level >= 0 &&
 	      pr <= il->level)
 	    continue;
-	  if (state == stIDLE)
+	  if (pr > req_pr)
 	    {
-	      state= stGO;
-	      sfr->set(PCON, sfr->get(PCON) & ~bmIDL);
-	      interrupt->was_reti= true;
-	      return(resGO);
+	      req= is;
+	      req_pr= pr;
 	    }
-	  is->clear();
-	  sim->app->get_commander()->
-	    debug("%g sec (%d clks): Accepting interrupt `%s' PC= 0x%06x\n",
-			  ticks->get_rtime(), ticks->get_ticks(), object_name(is), PC);
-	  IL= new it_level(pr, is->addr, PC, is);
-	  return(accept_it(IL));
 	}
     }
+  if (req)
+    {
+      if (state == stIDLE)
+	{
+	  state= stGO;
+	  sfr->set(PCON, sfr->get(PCON) & ~bmIDL);
+	  interrupt->was_reti= true;
+	  return(resGO);
+	}
+      req->clear();
+      sim->app->get_commander()->
+	debug("%g sec (%d clks): Accepting interrupt `%s' PC= 0x%06x\n",
+	      ticks->get_rtime(), ticks->get_ticks(), object_name(req), PC);
+      return(accept_it(new it_level(req_pr, req->addr, PC, req)));
+    }
   return(resGO);
 }
 
-- 
2.43.0


From 4beb6cabde70eb981b32d4728236d3513fc23e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:34 +0000
Subject: [PATCH 071/119] fix: 8051 peripherals stopped in idle mode, interrupt
 was served one instruction late

---
 src/sims/s51.src/uc51.cc | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/sims/s51.src/uc51.cc b/src/sims/s51.src/uc51.cc
index 4ce6525..afa112f 100644
--- a/src/sims/s51.src/uc51.cc
+++ b/src/sims/s51.src/uc51.cc
@@ -1708,17 +1708,20 @@ cl_51core::do_inst(void)
       PCsave= PC;
       result= exec_inst();
       post_inst();
+      if ((result == resGO) && (PC == PCsave) && stop_selfjump)
+	{
+	  result= resSELFJUMP;
+	  return result;
+	}
     }
   else
     {
-      // tick hw in idle state
+      // peripherals work in idle state but not in power down
+      events->disconn_all();
+      inst_ticks= 0;
       tick(1);
-    }
-
-  if ((result == resGO) && (PC == PCsave) && stop_selfjump)
-    {
-      result= resSELFJUMP;
-      return result;
+      if (state == stIDLE)
+	post_inst();
     }
   
   if (result == resGO)
@@ -1758,8 +1761,11 @@ cl_51core::do_emu(void)
     }
   else
     {
-      // tick hw in idle state
+      // peripherals work in idle state but not in power down
+      inst_ticks= 0;
       tick(1);
+      if (state == stIDLE)
+	post_emu();
     }
 
   if (result == resGO)
@@ -1837,13 +1843,6 @@ cl_51core::do_interrupt(void)
     }
   if (req)
     {
-      if (state == stIDLE)
-	{
-	  state= stGO;
-	  sfr->set(PCON, sfr->get(PCON) & ~bmIDL);
-	  interrupt->was_reti= true;
-	  return(resGO);
-	}
       req->clear();
       sim->app->get_commander()->
 	debug("%g sec (%d clks): Accepting interrupt `%s' PC= 0x%06x\n",
-- 
2.43.0


From f3b24ca0cd1264d23d7ce721b4c3ad11a3b15c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:38 +0000
Subject: [PATCH 072/119] fix: 8051 timers missed the cycles of interrupt
 acceptance

---
 src/sims/s51.src/uc51.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sims/s51.src/uc51.cc b/src/sims/s51.src/uc51.cc
index afa112f..90e66cc 100644
--- a/src/sims/s51.src/uc51.cc
+++ b/src/sims/s51.src/uc51.cc
@@ -1871,8 +1871,10 @@ cl_51core::accept_it(class it_level *il)
   state= stGO;
   sfr->set(PCON, sfr->get(PCON) & ~bmIDL);
   it_levels->push(il);
+  inst_ticks= 0;
   tick(1);
   int res= inst_lcall(0, il->addr, true);
+  tick_hw(inst_ticks);
   if (res != resGO)
     return(res);
   else
-- 
2.43.0


From cc2c2a49fd2f93771d0a501e7dc3e5d53621fc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:41 +0000
Subject: [PATCH 073/119] fix: 8051 level triggered interrupt request was
 latched

---
 src/sims/s51.src/interrupt.cc | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/sims/s51.src/interrupt.cc b/src/sims/s51.src/interrupt.cc
index 0cc82c6..62fedc8 100644
--- a/src/sims/s51.src/interrupt.cc
+++ b/src/sims/s51.src/interrupt.cc
@@ -109,10 +109,21 @@ cl_interrupt::mem_cell_changed(class cl_m *mem, t_addr addr)
 int
 cl_interrupt::tick(int cycles)
 {
-  if (!bit_IT0 && !bit_INT0)
-    cell_tcon->set(cell_tcon->get() | bmIE0);
-  if (!bit_IT1 && !bit_INT1)
-    cell_tcon->set(cell_tcon->get() | bmIE1);
+  // level triggered requests follow the pins
+  if (!bit_IT0)
+    {
+      if (!bit_INT0)
+	cell_tcon->set(cell_tcon->get() | bmIE0);
+      else
+	cell_tcon->set(cell_tcon->get() & ~bmIE0);
+    }
+  if (!bit_IT1)
+    {
+      if (!bit_INT1)
+	cell_tcon->set(cell_tcon->get() | bmIE1);
+      else
+	cell_tcon->set(cell_tcon->get() & ~bmIE1);
+    }
   return(resGO);
 }
 
-- 
2.43.0


From f98e1656d1e4780c48ec5820537215f49930018f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:44 +0000
Subject: [PATCH 074/119] fix: 8051 writes of IP and bits of IE and IP did not
 delay interrupt

---
 src/sims/s51.src/interrupt.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sims/s51.src/interrupt.cc b/src/sims/s51.src/interrupt.cc
index 62fedc8..f9bf191 100644
--- a/src/sims/s51.src/interrupt.cc
+++ b/src/sims/s51.src/interrupt.cc
@@ -54,12 +54,18 @@ cl_interrupt::init(void)
   if (sfr)
     {
       register_cell(sfr, IE);
+      register_cell(sfr, IP);
       cell_tcon= register_cell(sfr, TCON);
       bit_INT0= sfr->read(P3) & bm_INT0;
       bit_INT1= sfr->read(P3) & bm_INT1;
       cl_address_space *bas= uc->address_space("bits");
       cell_it0= register_cell(bas, 0x88);
       cell_it1= register_cell(bas, 0x8a);
+      for (int i= 0; i < 8; i++)
+	{
+	  register_cell(bas, IE+i);
+	  register_cell(bas, IP+i);
+	}
     }
   return(0);
 }
@@ -97,7 +103,7 @@ cl_interrupt::write(class cl_memory_cell *cell, t_mem *val)
       bit_IT1= *val & bmIT1;
     }
   else
-    // IE register
+    // IE or IP register
     was_reti= true;
 }
 
-- 
2.43.0


From 4d9835240118861483c6f15f60ce9b8a6ae32764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:05 +0000
Subject: [PATCH 075/119] fix: 8052 timer2 did not underflow when it counted
 down from zero

---
 src/sims/s51.src/timer2.cc | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/sims/s51.src/timer2.cc b/src/sims/s51.src/timer2.cc
index bb6f909..7d3a8c5 100644
--- a/src/sims/s51.src/timer2.cc
+++ b/src/sims/s51.src/timer2.cc
@@ -298,19 +298,21 @@ cl_timer2::do_t2_down(int cycles)
        // DOWN
       while (cycles--)
 	{
-	  t_mem l, h;
-	  if ((l= cell_tl->set(cell_tl->get() - 1)) == 0xff)
-	    h= cell_th->set(cell_th->get() - 1);
-	  else
-	    h= cell_th->get();
-	  if ((u16_t)(h*256+l) <
-	      (u16_t)(cell_rcap2h->get()*256+cell_rcap2l->get()))
+	  u16_t t2= cell_th->get()*256 + cell_tl->get();
+	  u16_t rcap= cell_rcap2h->get()*256 + cell_rcap2l->get();
+	  if (t2 <= rcap)
 	    {
 	      cell_tcon->set(cell_tcon->get() | mask_TF);
 	      cell_th->set(0xff);
 	      cell_tl->set(0xff);
 	      toggle= true;
 	    }
+	  else
+	    {
+	      t2--;
+	      cell_th->set(t2 >> 8);
+	      cell_tl->set(t2 & 0xff);
+	    }
 	}
     }
   if (toggle)
-- 
2.43.0


From c9fae708362709f4ec4993b697dc4a2a7a989301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:26 +0000
Subject: [PATCH 076/119] fix: 8052 timer2 went on running after reset

---
 src/sims/s51.src/timer0.cc  | 10 ++++++++++
 src/sims/s51.src/timer0cl.h |  1 +
 src/sims/s51.src/timer2.cc  |  9 +++++++++
 src/sims/s51.src/timer2cl.h |  1 +
 4 files changed, 21 insertions(+)

diff --git a/src/sims/s51.src/timer0.cc b/src/sims/s51.src/timer0.cc
index 22d58b5..06ea8b4 100644
--- a/src/sims/s51.src/timer0.cc
+++ b/src/sims/s51.src/timer0.cc
@@ -201,6 +201,16 @@ cl_timer0::mem_cell_changed(class cl_m *mem, t_addr addr)
   //if (addr == addr_th) cell_th= sfr->get_cell(addr_th);
 }*/
 
+void
+cl_timer0::reset(void)
+{
+  if (cell_tmod)
+    cell_tmod->write(0);
+  if (cell_tcon)
+    cell_tcon->write(0);
+  T_edge= 0;
+}
+
 int
 cl_timer0::tick(int cycles)
 {
diff --git a/src/sims/s51.src/timer0cl.h b/src/sims/s51.src/timer0cl.h
index d7e26f5..fb7711a 100644
--- a/src/sims/s51.src/timer0cl.h
+++ b/src/sims/s51.src/timer0cl.h
@@ -59,6 +59,7 @@ public:
   
   //virtual void mem_cell_changed(class cl_mem *mem, t_addr addr);
 
+  virtual void reset(void);
   virtual int tick(int cycles);
   virtual int do_mode0(int cycles);
   virtual int do_mode1(int cycles);
diff --git a/src/sims/s51.src/timer2.cc b/src/sims/s51.src/timer2.cc
index 7d3a8c5..48e578e 100644
--- a/src/sims/s51.src/timer2.cc
+++ b/src/sims/s51.src/timer2.cc
@@ -137,6 +137,15 @@ cl_timer2::set_mode(void)
     exf2it->set_active_status(mode != T2MODE_DOWN);
 }
 
+void
+cl_timer2::reset(void)
+{
+  cl_timer0::reset();
+  if (cell_t2mod)
+    cell_t2mod->write(0);
+  t2ex_edge= 0;
+}
+
 int
 cl_timer2::tick(int cycles)
 { 
diff --git a/src/sims/s51.src/timer2cl.h b/src/sims/s51.src/timer2cl.h
index 40e4387..37873bc 100644
--- a/src/sims/s51.src/timer2cl.h
+++ b/src/sims/s51.src/timer2cl.h
@@ -76,6 +76,7 @@ public:
 
   //virtual void mem_cell_changed(class cl_mem *mem, t_addr addr);
 
+  virtual void reset(void);
   virtual int  tick(int cycles);
   virtual int  do_t2_baud(int cycles);
   virtual void do_t2_capture(int cycles);
-- 
2.43.0


From f7cd6cb1360f727782d612a69ab3d4cfd9607cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:54 +0000
Subject: [PATCH 077/119] fix: mcs51: an undefined instruction continued at
 address 1

---
 src/sims/s51.src/uc51.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/s51.src/uc51.cc b/src/sims/s51.src/uc51.cc
index 90e66cc..7a1e09a 100644
--- a/src/sims/s51.src/uc51.cc
+++ b/src/sims/s51.src/uc51.cc
@@ -1705,7 +1705,7 @@ cl_51core::do_inst(void)
     {
       interrupt->was_reti= false;
       pre_inst();
-      PCsave= PC;
+      instPC= PCsave= PC;
       result= exec_inst();
       post_inst();
       if ((result == resGO) && (PC == PCsave) && stop_selfjump)
-- 
2.43.0


From 0466fb82ffd1ede19a098d897183d273749c9178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:54 +0000
Subject: [PATCH 078/119] fix: m6809: wrong instruction lengths and targets in
 disassembly

---
 src/sims/m6809.src/glob.cc  |  2 +-
 src/sims/m6809.src/m6809.cc | 14 +++++++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/sims/m6809.src/glob.cc b/src/sims/m6809.src/glob.cc
index 481973f..570fcc2 100644
--- a/src/sims/m6809.src/glob.cc
+++ b/src/sims/m6809.src/glob.cc
@@ -80,7 +80,7 @@ struct dis_entry disass_m6809[]=
 
    { 0x8d, 0xff, 's', 1, "BSR %b"	, true, 0 },
    { 0xbd, 0xff, 's', 1, "JSR %j"	, true, 0 },
-   { 0x8d, 0xcf, 's', 1, "JSR %b"	, true, 0 },
+   { 0x8d, 0xcf, 's', 1, "JSR %j"	, true, 0 },
    
    { 0x16, 0xff, ' ', 1, "LBRA %B"	, 0, 0 },
    { 0x17, 0xff, ' ', 1, "LBSR %B"	, true, 0 },
diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index 4c4437c..3706cb8 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -629,7 +629,7 @@ cl_m6809::disass(t_addr addr)
 		    i16+= rom->get(addr++);
 		  }
 		i16= (i16 + addr) & 0xffff;
-		work.appendf("$%04x", i16);
+		work.appendf("$%04x", (u16_t)i16);
 		addr_name(i16, rom, &work);
 		break;
 	      }
@@ -741,14 +741,14 @@ cl_m6809::inst_length(t_addr addr)
     {
       ret= 2;
       code= rom->get(addr+1);
-      ch= code>>4;
-      cl= code&0xf;
+      if (code==0x3f) return ret;
+      if ((code & 0xf0) == 0x20) return 4; // long branches
       int aml= 1;
       switch (code & 0x30)
 	{
 	case 0x00: aml= 1+1; break; // immed
 	case 0x10: aml= 1; break; // direct
-	case 0x20: aml= indexed_length(addr+1); break;// index
+	case 0x20: aml= indexed_length(addr+1)-1; break;// index
 	case 0x30: aml= 2; // extend
 	}
       ret+= aml;
@@ -763,7 +763,7 @@ cl_m6809::inst_length(t_addr addr)
 	{
 	case 0x00: aml= 1+1; break; // immed
 	case 0x10: aml= 1; break; // direct
-	case 0x20: aml= indexed_length(addr+1); break;// index
+	case 0x20: aml= indexed_length(addr+1)-1; break;// index
 	case 0x30: aml= 2; // extend
 	}
       ret+= aml;
@@ -796,13 +796,13 @@ cl_m6809::inst_length(t_addr addr)
       if (ch==1)
 	{
 	  if (cl==6||cl==7) return 3;
-	  if (cl==10||cl==12||cl==13||cl==15) return 2;
+	  if (cl==10||cl==12||cl==14||cl==15) return 2;
 	}
       if (ch==2) return 2;
       if (ch==3)
 	{
 	  if (cl < 4) return indexed_length(addr);
-	  if (cl < 8) return 2;
+	  if (cl < 8 || cl == 12) return 2;
 	}
       if (ch==6) return indexed_length(addr);
       if (ch==7) return 3; // extend
-- 
2.43.0


From c2afe0ff5e4e584ca06a23abff915d89bed2bd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:54 +0000
Subject: [PATCH 079/119] fix: z80: wrong instruction lengths in disassembly,
 missing Z180 instructions

---
 src/sims/z80.src/ez80.cc      |  2 +-
 src/sims/z80.src/glob.cc      | 48 ++++++++++++++++++++++++++++-------
 src/sims/z80.src/glob_gb80.cc |  6 ++---
 src/sims/z80.src/inst_ed.cc   |  2 ++
 src/sims/z80.src/inst_gb80.cc |  1 +
 src/sims/z80.src/r800.cc      |  1 +
 6 files changed, 47 insertions(+), 13 deletions(-)

diff --git a/src/sims/z80.src/ez80.cc b/src/sims/z80.src/ez80.cc
index 340e77f..4e9e6ab 100644
--- a/src/sims/z80.src/ez80.cc
+++ b/src/sims/z80.src/ez80.cc
@@ -131,7 +131,7 @@ struct dis_entry disass_ez80_fd[]=
     { 0x003e, 0x00ff, ' ', 2, "LD (IY+%d),IX" },
     { 0x003f, 0x00ff, ' ', 2, "LD (IY+%d),IY" },
     { 0x0031, 0x00ff, ' ', 2, "LD IX,(IY+%d)" },
-    { 0x003f, 0x00ff, ' ', 2, "LD IY,(IY+%d)" },
+    { 0x0037, 0x00ff, ' ', 2, "LD IY,(IY+%d)" },
     { 0x000f, 0x00ff, ' ', 2, "LD (IY+%d),BC" },
     { 0x001f, 0x00ff, ' ', 2, "LD (IY+%d),DE" },
     { 0x002f, 0x00ff, ' ', 2, "LD (IY+%d),HL" },
diff --git a/src/sims/z80.src/glob.cc b/src/sims/z80.src/glob.cc
index 766535a..9c99592 100644
--- a/src/sims/z80.src/glob.cc
+++ b/src/sims/z80.src/glob.cc
@@ -68,7 +68,7 @@ struct dis_entry disass_z80[]= {
   { 0x0017, 0x00ff, ' ', 1, "RLA" },
 
   { 0x0018, 0x00ff, 'R', 2, "JR %d" },
-  { 0x0019, 0x00ff, ' ', 3, "ADD HL,DE" },
+  { 0x0019, 0x00ff, ' ', 1, "ADD HL,DE" },
   { 0x001a, 0x00ff, ' ', 1, "LD A,(DE)" },
   { 0x001b, 0x00ff, ' ', 1, "DEC DE" },
   { 0x001c, 0x00ff, ' ', 1, "INC E" },
@@ -368,6 +368,36 @@ struct dis_entry disass_z80n_ed[]=
 };
 
 struct dis_entry disass_z180_ed[]= {
+  { 0x0000, 0x00ff, ' ', 2, "IN0 B,(%b)" },
+  { 0x0008, 0x00ff, ' ', 2, "IN0 C,(%b)" },
+  { 0x0010, 0x00ff, ' ', 2, "IN0 D,(%b)" },
+  { 0x0018, 0x00ff, ' ', 2, "IN0 E,(%b)" },
+  { 0x0020, 0x00ff, ' ', 2, "IN0 H,(%b)" },
+  { 0x0028, 0x00ff, ' ', 2, "IN0 L,(%b)" },
+  { 0x0030, 0x00ff, ' ', 2, "IN0 F,(%b)" },
+  { 0x0038, 0x00ff, ' ', 2, "IN0 A,(%b)" },
+  { 0x0001, 0x00ff, ' ', 2, "OUT0 (%b),B" },
+  { 0x0009, 0x00ff, ' ', 2, "OUT0 (%b),C" },
+  { 0x0011, 0x00ff, ' ', 2, "OUT0 (%b),D" },
+  { 0x0019, 0x00ff, ' ', 2, "OUT0 (%b),E" },
+  { 0x0021, 0x00ff, ' ', 2, "OUT0 (%b),H" },
+  { 0x0029, 0x00ff, ' ', 2, "OUT0 (%b),L" },
+  { 0x0039, 0x00ff, ' ', 2, "OUT0 (%b),A" },
+  { 0x0004, 0x00ff, ' ', 1, "TST A,B" },
+  { 0x000c, 0x00ff, ' ', 1, "TST A,C" },
+  { 0x0014, 0x00ff, ' ', 1, "TST A,D" },
+  { 0x001c, 0x00ff, ' ', 1, "TST A,E" },
+  { 0x0024, 0x00ff, ' ', 1, "TST A,H" },
+  { 0x002c, 0x00ff, ' ', 1, "TST A,L" },
+  { 0x0034, 0x00ff, ' ', 1, "TST A,(HL)" },
+  { 0x003c, 0x00ff, ' ', 1, "TST A,A" },
+  { 0x0064, 0x00ff, ' ', 2, "TST A,%b" },
+  { 0x0074, 0x00ff, ' ', 2, "TSTIO %b" },
+  { 0x0076, 0x00ff, ' ', 1, "SLP" },
+  { 0x0083, 0x00ff, ' ', 1, "OTIM" },
+  { 0x0093, 0x00ff, ' ', 1, "OTIMR" },
+  { 0x008b, 0x00ff, ' ', 1, "OTDM" },
+  { 0x009b, 0x00ff, ' ', 1, "OTDMR" },
   { 0x004c, 0x00ff, ' ', 1, "MLT BC" },
   { 0x005c, 0x00ff, ' ', 1, "MLT DE" },
   { 0x006c, 0x00ff, ' ', 1, "MLT HL" },
@@ -380,7 +410,7 @@ struct dis_entry disass_z80_ed[]= {
   { 0x0040, 0x00ff, ' ', 1, "IN B,(C)" },
   { 0x0041, 0x00ff, ' ', 1, "OUT (C),B" },
   { 0x0042, 0x00ff, ' ', 1, "SBC HL,BC" },
-  { 0x0043, 0x00ff, ' ', 1, "LD (nnnn),BC" },
+  { 0x0043, 0x00ff, ' ', 3, "LD (%w),BC" },
   { 0x0044, 0x00ff, ' ', 1, "NEG" },
   { 0x0045, 0x00ff, ' ', 1, "RETN" },
   { 0x0046, 0x00ff, ' ', 1, "IM 0" },
@@ -388,39 +418,39 @@ struct dis_entry disass_z80_ed[]= {
   { 0x0048, 0x00ff, ' ', 1, "IN C,(C)" },
   { 0x0049, 0x00ff, ' ', 1, "OUT (C),C" },
   { 0x004A, 0x00ff, ' ', 1, "ADC HL,BC" },
-  { 0x004B, 0x00ff, ' ', 1, "LD BC,(nnnn)" },
+  { 0x004B, 0x00ff, ' ', 3, "LD BC,(%w)" },
   { 0x004D, 0x00ff, ' ', 1, "RETI" },
   { 0x004F, 0x00ff, ' ', 1, "LD R,A" },
   { 0x0050, 0x00ff, ' ', 1, "IN D,(C)" },
   { 0x0051, 0x00ff, ' ', 1, "OUT (C),D" },
   { 0x0052, 0x00ff, ' ', 1, "SBC HL,DE" },
-  { 0x0053, 0x00ff, ' ', 1, "LD (nnnn),DE" },
+  { 0x0053, 0x00ff, ' ', 3, "LD (%w),DE" },
   { 0x0056, 0x00ff, ' ', 1, "IM 1" },
   { 0x0057, 0x00ff, ' ', 1, "LD A,IV" },
   { 0x0058, 0x00ff, ' ', 1, "IN E,(C)" },
   { 0x0059, 0x00ff, ' ', 1, "OUT (C),E" },
   { 0x005A, 0x00ff, ' ', 1, "ADC HL,DE" },
-  { 0x005B, 0x00ff, ' ', 1, "LD DE,(nnnn)" },
+  { 0x005B, 0x00ff, ' ', 3, "LD DE,(%w)" },
   { 0x005E, 0x00ff, ' ', 1, "IM 2" },
   { 0x005F, 0x00ff, ' ', 1, "LD A,R" },
   { 0x0060, 0x00ff, ' ', 1, "IN H,(C)" },
   { 0x0061, 0x00ff, ' ', 1, "OUT (C),H" },
   { 0x0062, 0x00ff, ' ', 1, "SBC HL,HL" },
-  { 0x0063, 0x00ff, ' ', 1, "LD (nnnn),HL" },
+  { 0x0063, 0x00ff, ' ', 3, "LD (%w),HL" },
   { 0x0067, 0x00ff, ' ', 1, "RRD" },
   { 0x0068, 0x00ff, ' ', 1, "IN L,(C)" },
   { 0x0069, 0x00ff, ' ', 1, "OUT (C),L" },
   { 0x006A, 0x00ff, ' ', 1, "ADC HL,HL" },
-  { 0x006B, 0x00ff, ' ', 1, "LD HL,(nnnn)" },
+  { 0x006B, 0x00ff, ' ', 3, "LD HL,(%w)" },
   { 0x006F, 0x00ff, ' ', 1, "RLD" },
   { 0x0070, 0x00ff, ' ', 1, "IN (C)" },
   { 0x0071, 0x00ff, ' ', 1, "OUT (C),0" },
   { 0x0072, 0x00ff, ' ', 1, "SBC HL,SP" },
-  { 0x0073, 0x00ff, ' ', 1, "LD (nnnn),SP" },
+  { 0x0073, 0x00ff, ' ', 3, "LD (%w),SP" },
   { 0x0078, 0x00ff, ' ', 1, "IN A,(C)" },
   { 0x0079, 0x00ff, ' ', 1, "OUT (C),A" },
   { 0x007A, 0x00ff, ' ', 1, "ADC HL,SP" },
-  { 0x007B, 0x00ff, ' ', 1, "LD SP,(nnnn)" },
+  { 0x007B, 0x00ff, ' ', 3, "LD SP,(%w)" },
   { 0x00A0, 0x00ff, ' ', 1, "LDI" },
   { 0x00A1, 0x00ff, ' ', 1, "CPI" },
   { 0x00A2, 0x00ff, ' ', 1, "INI" },
diff --git a/src/sims/z80.src/glob_gb80.cc b/src/sims/z80.src/glob_gb80.cc
index c823420..c161921 100644
--- a/src/sims/z80.src/glob_gb80.cc
+++ b/src/sims/z80.src/glob_gb80.cc
@@ -70,7 +70,7 @@ struct dis_entry /*DISASS_NAME()*/disass_gb80 []= {
   { 0x0017, 0x00ff, ' ', 1, "RLA" },
 
   { 0x0018, 0x00ff, 'R', 2, "JR %d" },
-  { 0x0019, 0x00ff, ' ', 3, "ADD HL,DE" },
+  { 0x0019, 0x00ff, ' ', 1, "ADD HL,DE" },
   { 0x001a, 0x00ff, ' ', 1, "LD A,(DE)" },
   { 0x001b, 0x00ff, ' ', 1, "DEC DE" },
   { 0x001c, 0x00ff, ' ', 1, "INC E" },
@@ -313,7 +313,7 @@ struct dis_entry /*DISASS_NAME()*/disass_gb80 []= {
 
   { 0x00e0, 0x00ff, ' ', 2, "LDH (0xFF00+%b),A" },  // unique to GB80
   { 0x00e1, 0x00ff, ' ', 1, "POP HL" },
-  { 0x00e2, 0x00ff, 'A', 2, "LD (0xFF00+C),A" },  // unique to GB80
+  { 0x00e2, 0x00ff, 'A', 1, "LD (0xFF00+C),A" },  // unique to GB80
   { 0x00e3, 0x00ff, ' ', 1, "Illegal Op" },
   { 0x00e4, 0x00ff, 'l', 1, "Illegal Op" },
   { 0x00e5, 0x00ff, ' ', 1, "PUSH HL" },
@@ -331,7 +331,7 @@ struct dis_entry /*DISASS_NAME()*/disass_gb80 []= {
 
   { 0x00f0, 0x00ff, ' ', 2, "LDH A,(0xFF00+%b)" },  // unique to GB80
   { 0x00f1, 0x00ff, ' ', 1, "POP AF" },
-  { 0x00f2, 0x00ff, ' ', 2, "LD A,(0xFF00+C)" },  // unique to GB80
+  { 0x00f2, 0x00ff, ' ', 1, "LD A,(0xFF00+C)" },  // unique to GB80
   { 0x00f3, 0x00ff, ' ', 1, "DI" },
   { 0x00f4, 0x00ff, 'l', 3, "Illegal Op" },
   { 0x00f5, 0x00ff, ' ', 1, "PUSH AF" },
diff --git a/src/sims/z80.src/inst_ed.cc b/src/sims/z80.src/inst_ed.cc
index 977685a..fcf5832 100644
--- a/src/sims/z80.src/inst_ed.cc
+++ b/src/sims/z80.src/inst_ed.cc
@@ -69,6 +69,8 @@ int  cl_z80::inst_ed_(t_mem code)
           return resGO;
 
         case 1:  // OUT0
+          if (code == 0x31)
+            return resINV_INST;
           ubtmp = fetch1( );
           out_byte( ubtmp, reg_g_read( (code >> 3) & 0x07 ) );
           return resGO;
diff --git a/src/sims/z80.src/inst_gb80.cc b/src/sims/z80.src/inst_gb80.cc
index 928b81e..ffe6dd6 100644
--- a/src/sims/z80.src/inst_gb80.cc
+++ b/src/sims/z80.src/inst_gb80.cc
@@ -240,6 +240,7 @@ int cl_gb80::inst_st_sp_abs(t_mem code) {
 
 int cl_gb80::inst_stop0    (t_mem code) {
   // TODO: change to wait for a signal for simulated hardware
+  fetch(); // second byte of the instruction
   tick(3);//can be 7 sometimes
   return resHALT;
 }
diff --git a/src/sims/z80.src/r800.cc b/src/sims/z80.src/r800.cc
index 13f3f29..3dfe7a6 100644
--- a/src/sims/z80.src/r800.cc
+++ b/src/sims/z80.src/r800.cc
@@ -70,6 +70,7 @@ struct dis_entry disass_r800[]= {
   { 0xd9ed, 0xffff, ' ', 2, "MULUB A,E" },
   { 0xe1ed, 0xffff, ' ', 2, "MULUB A,H" },
   { 0xe9ed, 0xffff, ' ', 2, "MULUB A,L" },
+  { 0xf1ed, 0xffff, ' ', 2, "MULUB A,(HL)" },
 
   { 0xc3ed, 0xffff, ' ', 2, "MULUW HL,BC" },
   { 0xd3ed, 0xffff, ' ', 2, "MULUW HL,DE" },
-- 
2.43.0


From 59cfe41dad20f556cc2becaab8bdd9a76f903b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:54 +0000
Subject: [PATCH 080/119] fix: m68hc08: wrong lengths and targets of dbnz, bsr
 and mov in disassembly

---
 src/sims/m68hc08.src/glob.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sims/m68hc08.src/glob.cc b/src/sims/m68hc08.src/glob.cc
index 0675b2c..30ece86 100644
--- a/src/sims/m68hc08.src/glob.cc
+++ b/src/sims/m68hc08.src/glob.cc
@@ -106,7 +106,7 @@ struct dis_entry disass_hc08[]= {
   { 0x0038, 0x00ff, ' ', 2, "lsl %d" },
   { 0x0039, 0x00ff, ' ', 2, "rol %d" },
   { 0x003a, 0x00ff, ' ', 2, "dec %d" },
-  { 0x003b, 0x00ff, 'R', 3, "dbnz %d,%d" },
+  { 0x003b, 0x00ff, 'R', 3, "dbnz %d,%p" },
   { 0x003c, 0x00ff, ' ', 2, "inc %d" },
   { 0x003d, 0x00ff, ' ', 2, "tst %d" },
   { 0x003e, 0x00ff, ' ', 3, "cphx %x" },  //HCS08 only
@@ -143,7 +143,7 @@ struct dis_entry disass_hc08[]= {
   { 0x005b, 0x00ff, 'R', 2, "dbnzx %p" },
   { 0x005c, 0x00ff, ' ', 1, "incx" },
   { 0x005d, 0x00ff, ' ', 1, "tstx" },
-  { 0x005e, 0x00ff, ' ', 3, "mov %d,x+" },
+  { 0x005e, 0x00ff, ' ', 2, "mov %d,x+" },
   { 0x005f, 0x00ff, ' ', 1, "clrx" },
 
   { 0x0060, 0x00ff, ' ', 2, "neg %1,x" },
@@ -157,7 +157,7 @@ struct dis_entry disass_hc08[]= {
   { 0x0068, 0x00ff, ' ', 2, "lsl %1,x" },
   { 0x0069, 0x00ff, ' ', 2, "rol %1,x" },
   { 0x006a, 0x00ff, ' ', 2, "dec %1,x" },
-  { 0x006b, 0x00ff, 'R', 2, "dbnz %1,x,%p" },
+  { 0x006b, 0x00ff, 'R', 3, "dbnz %1,x,%p" },
   { 0x006c, 0x00ff, ' ', 2, "inc %1,x" },
   { 0x006d, 0x00ff, ' ', 2, "tst %1,x" },
   { 0x006e, 0x00ff, ' ', 3, "mov %b,%d" },
@@ -193,7 +193,7 @@ struct dis_entry disass_hc08[]= {
   { 0x007b, 0x00ff, 'R', 2, "dbnz ,x,%p" },
   { 0x007c, 0x00ff, ' ', 1, "inc ,x" },
   { 0x007d, 0x00ff, ' ', 1, "tst ,x" },
-  { 0x007e, 0x00ff, ' ', 2, "mov ,x+,%d" },
+  { 0x007e, 0x00ff, ' ', 2, "mov x+,%d" },
   { 0x007f, 0x00ff, ' ', 1, "clr ,x" },
 
   { 0x0080, 0x00ff, ' ', 1, "rti" },
@@ -240,7 +240,7 @@ struct dis_entry disass_hc08[]= {
   { 0x00a9, 0x00ff, ' ', 2, "adc %b" },
   { 0x00aa, 0x00ff, ' ', 2, "ora %b" },
   { 0x00ab, 0x00ff, ' ', 2, "add %b" },
-  { 0x00ad, 0x00ff, 'R', 2, "bsr %d", true },
+  { 0x00ad, 0x00ff, 'R', 2, "bsr %p", true },
   { 0x00ae, 0x00ff, ' ', 2, "ldx %b" },
   { 0x00af, 0x00ff, ' ', 2, "aix %s" },
 
@@ -343,7 +343,7 @@ struct dis_entry disass_hc08_9e[]= {
   { 0x0068, 0x00ff, ' ', 2, "lsl %1,sp" },
   { 0x0069, 0x00ff, ' ', 2, "rol %1,sp" },
   { 0x006a, 0x00ff, ' ', 2, "dec %1,sp" },
-  { 0x006b, 0x00ff, 'R', 2, "dbnz %1,sp,%p" },
+  { 0x006b, 0x00ff, 'R', 3, "dbnz %1,sp,%p" },
   { 0x006c, 0x00ff, ' ', 2, "inc %1,sp" },
   { 0x006d, 0x00ff, ' ', 2, "tst %1,sp" },
   { 0x006f, 0x00ff, ' ', 2, "clr %1,sp" },
-- 
2.43.0


From 4e7ba3c6115309852ace330450c6cf08f212ffb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:49 +0000
Subject: [PATCH 081/119] fix: m68hc11: wrong CPX/CPY opcodes, wrong lengths in
 m6800 and m68hc11 disassembly

---
 src/core/motorola.src/g11p18.cc  | 18 +++++++++---------
 src/core/motorola.src/g11p1a.cc  | 10 +++++-----
 src/core/motorola.src/g11pcd.cc  |  6 +++---
 src/core/motorola.src/glob68.cc  |  2 +-
 src/core/motorola.src/m68hc11.cc |  4 ++--
 5 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/core/motorola.src/g11p18.cc b/src/core/motorola.src/g11p18.cc
index 624e315..8f8b2f3 100644
--- a/src/core/motorola.src/g11p18.cc
+++ b/src/core/motorola.src/g11p18.cc
@@ -71,13 +71,13 @@ struct dis_entry disass11p18[]= {
   { 0xae, 0xff, ' ', 3, "LDS %X" },
   { 0xaf, 0xff, ' ', 3, "STS %X" },
   { 0xbc, 0xff, ' ', 4, "CPY %E" },
-  { 0xce, 0xff, ' ', 3, "LDY %B" },
+  { 0xce, 0xff, ' ', 4, "LDY %B" },
   { 0xde, 0xff, ' ', 3, "LDY %D" },
-  { 0xde, 0xff, ' ', 3, "LDY %X" },
-  { 0xfe, 0xff, ' ', 3, "LDY %E" },
+  { 0xee, 0xff, ' ', 3, "LDY %X" },
+  { 0xfe, 0xff, ' ', 4, "LDY %E" },
   { 0xdf, 0xff, ' ', 3, "STY %D" },
-  { 0xdf, 0xff, ' ', 3, "STY %X" },
-  { 0xff, 0xff, ' ', 3, "STY %E" },
+  { 0xef, 0xff, ' ', 3, "STY %X" },
+  { 0xff, 0xff, ' ', 4, "STY %E" },
   { 0xe0, 0xff, ' ', 3, "SUB B,%x" },
   { 0xe1, 0xff, ' ', 3, "CMP B,%x" },
   { 0xe2, 0xff, ' ', 3, "SBC B,%x" },
@@ -93,10 +93,10 @@ struct dis_entry disass11p18[]= {
   { 0xec, 0xff, ' ', 3, "LDD %X" },
   { 0xed, 0xff, ' ', 3, "STD %X" },
 
-  { 0x1c, 0xff, ' ', 3, "BSET %x,%b" },
-  { 0x1e, 0xff, 'R', 4, "BRSET %x,%b,%r" },
-  { 0x1d, 0xff, ' ', 3, "BCLR %x,%b" },
-  { 0x1f, 0xff, 'R', 4, "BRCLR %x,%b,%r" },
+  { 0x1c, 0xff, ' ', 4, "BSET %x,%b" },
+  { 0x1e, 0xff, 'R', 5, "BRSET %x,%b,%r" },
+  { 0x1d, 0xff, ' ', 4, "BCLR %x,%b" },
+  { 0x1f, 0xff, 'R', 5, "BRCLR %x,%b,%r" },
 
   { 0, 0, 0, 0, 0, 0 }
 };
diff --git a/src/core/motorola.src/g11p1a.cc b/src/core/motorola.src/g11p1a.cc
index 96d42c9..48439c9 100644
--- a/src/core/motorola.src/g11p1a.cc
+++ b/src/core/motorola.src/g11p1a.cc
@@ -32,14 +32,14 @@ Software Foundation, 59 Temple Place - Suite 330, Boston, MA
 // code, mask, branch, len, mnem, iscall, ticks
 struct dis_entry disass11p1a[]= {
 
-  { 0x83, 0xff, ' ', 3, "CPD %B" },  
+  { 0x83, 0xff, ' ', 4, "CPD %B" },  
   { 0x93, 0xff, ' ', 3, "CPD %D" },  
   { 0xa3, 0xff, ' ', 3, "CPD %X" },  
-  { 0xb3, 0xff, ' ', 3, "CPD %E" },  
+  { 0xb3, 0xff, ' ', 4, "CPD %E" },  
 
-  { 0xad, 0xff, ' ', 3, "CPY %X" },
-  { 0xee, 0xff, ' ', 2, "LDY %x" },
-  { 0xef, 0xff, ' ', 2, "STY %x" },
+  { 0xac, 0xff, ' ', 3, "CPY %X" },
+  { 0xee, 0xff, ' ', 3, "LDY %X" },
+  { 0xef, 0xff, ' ', 3, "STY %X" },
 
   { 0, 0, 0, 0, 0, 0 }
 };
diff --git a/src/core/motorola.src/g11pcd.cc b/src/core/motorola.src/g11pcd.cc
index f28dc1d..3f90194 100644
--- a/src/core/motorola.src/g11pcd.cc
+++ b/src/core/motorola.src/g11pcd.cc
@@ -33,9 +33,9 @@ Software Foundation, 59 Temple Place - Suite 330, Boston, MA
 struct dis_entry disass11pcd[]= {
 
   { 0xa3, 0xff, ' ', 3, "CPD %X" },  
-  { 0xad, 0xff, ' ', 3, "CPD %X" },
-  { 0xee, 0xff, ' ', 2, "LDX %x" },
-  { 0xef, 0xff, ' ', 2, "STX %x" },
+  { 0xac, 0xff, ' ', 3, "CPX %X" },
+  { 0xee, 0xff, ' ', 3, "LDX %X" },
+  { 0xef, 0xff, ' ', 3, "STX %X" },
 
   { 0, 0, 0, 0, 0, 0 }
 };
diff --git a/src/core/motorola.src/glob68.cc b/src/core/motorola.src/glob68.cc
index 17fed6c..4891ab2 100644
--- a/src/core/motorola.src/glob68.cc
+++ b/src/core/motorola.src/glob68.cc
@@ -51,6 +51,7 @@ struct dis_entry disass_m6800[]=
     { 0x1b, 0xff, ' ', 1, "ABA" },
 
     { 0x20, 0xff, 'r', 2, "BRA %r" },
+    { 0x21, 0xff, 'r', 2, "BRN %r" },
     { 0x22, 0xff, 'R', 2, "BHI %r" },
     { 0x23, 0xff, 'R', 2, "BLS %r" },
     { 0x24, 0xff, 'R', 2, "BCC %r" },
@@ -251,7 +252,6 @@ struct dis_entry disass_m6800[]=
 // code mask branch len mn call tick
 struct dis_entry disass_m6801[]=
   {
-    { 0x21, 0xff, ' ', 2, "BRN %r" },
     { 0x9d, 0xff, 'd', 2, "JSR %d" },
     { 0x3c, 0xff, ' ', 1, "PSHX" },
     { 0x38, 0xff, ' ', 1, "PULX" },
diff --git a/src/core/motorola.src/m68hc11.cc b/src/core/motorola.src/m68hc11.cc
index d2aaeed..7332ab6 100644
--- a/src/core/motorola.src/m68hc11.cc
+++ b/src/core/motorola.src/m68hc11.cc
@@ -428,7 +428,7 @@ CL11::PAGE1A(t_mem code)
     case 0xa3: return cp16(cD, iop16()); break;
     case 0xb3: return cp16(cD, eop16()); break;
 
-    case 0xad: return cp16(cY, iop16()); break;
+    case 0xac: return cp16(cY, iop16()); break;
     case 0xee: return ldsx(cY, iop16()); break;
     case 0xef: return stsx(iaddr(), rY); break;
     }
@@ -444,7 +444,7 @@ CL11::PAGECD(t_mem code)
     {
     case 0xa3: return cp16(cD, iop16()); break;
 
-    case 0xad: return cp16(cX, iop16()); break;
+    case 0xac: return cp16(cX, iop16()); break;
     case 0xee: return ldsx(cX, iop16()); break;
     case 0xef: return stsx(iaddr(), rX); break;
     }
-- 
2.43.0


From 0d83a05496dd09f0d821345f779bb103854a3d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:03 +0000
Subject: [PATCH 082/119] fix: mcs51: writing port pins from outside was
 reported twice to the peripherals

---
 src/sims/s51.src/port.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sims/s51.src/port.cc b/src/sims/s51.src/port.cc
index 03ef499..c76217e 100644
--- a/src/sims/s51.src/port.cc
+++ b/src/sims/s51.src/port.cc
@@ -156,6 +156,7 @@ cl_port::write(class cl_memory_cell *cell, t_mem *val)
   struct ev_port_changed ep;
   u8_t nv= *val;
   t_addr ba;
+  bool latch= cell == cell_p;
   
   if (cell == cell_p)
     {
@@ -169,6 +170,7 @@ cl_port::write(class cl_memory_cell *cell, t_mem *val)
     {
       int bi= ba - addr_p;
       int m= 1 << bi;
+      latch= true;
       nv= cell_p->get();
       if (*val)
 	nv|= m;
@@ -179,6 +181,9 @@ cl_port::write(class cl_memory_cell *cell, t_mem *val)
     }
 
   conf(cell, val);
+  if (!latch)
+    // pins and configuration are handled by set_cmd/conf_op
+    return;
   
   ep.id= id;
   ep.addr= addr_p;
-- 
2.43.0


From 882bf4867fe0f297b413036bdc0c89ec4438aa30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:47 +0000
Subject: [PATCH 083/119] fix: 8052 timer2 toggled EXF2 once for several
 overflows within one instruction

---
 src/sims/s51.src/timer2.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/s51.src/timer2.cc b/src/sims/s51.src/timer2.cc
index 48e578e..e0787a9 100644
--- a/src/sims/s51.src/timer2.cc
+++ b/src/sims/s51.src/timer2.cc
@@ -298,7 +298,7 @@ cl_timer2::do_t2_down(int cycles)
 		cell_tcon->set(cell_tcon->get() | mask_TF);
 		cell_th->set(cell_rcap2h->get());
 		cell_tl->set(cell_rcap2l->get());
-		toggle= true;
+		toggle= !toggle;
 	      }
 	  }
     }
@@ -314,7 +314,7 @@ cl_timer2::do_t2_down(int cycles)
 	      cell_tcon->set(cell_tcon->get() | mask_TF);
 	      cell_th->set(0xff);
 	      cell_tl->set(0xff);
-	      toggle= true;
+	      toggle= !toggle;
 	    }
 	  else
 	    {
-- 
2.43.0


From 7b048082a54d450aa106e75fbcc0ec5419e668ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:17 +0000
Subject: [PATCH 084/119] fix: step over, disassembly and call detection
 crashed on processors without instruction table

---
 src/core/sim.src/uc.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 5fa1ff7..da6a190 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -2611,6 +2611,9 @@ cl_uc::inst_length(t_addr addr)
   if (!rom)
     return(0);
 
+  if (!tabl)
+    return(1);
+
   code = rom->get(addr);
   for (i= 0; tabl[i].mnemonic && (code & tabl[i].mask) != tabl[i].code; i++) ;
   return(tabl[i].mnemonic?tabl[i].length:1);
@@ -2626,6 +2629,9 @@ cl_uc::inst_branch(t_addr addr)
   if (!rom)
     return(0);
 
+  if (!tabl)
+    return(0);
+
   code = rom->get(addr);
   for (i= 0; tabl[i].mnemonic && (code & tabl[i].mask) != tabl[i].code; i++)
     ;
@@ -2642,6 +2648,9 @@ cl_uc::is_call(t_addr addr)
   if (!rom)
     return(0);
 
+  if (!tabl)
+    return(false);
+
   code = rom->get(addr);
   for (i= 0; tabl[i].mnemonic && (code & tabl[i].mask) != tabl[i].code; i++)
     ;
-- 
2.43.0


From 397791fbc922370a233d7286e2c1511f18073bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:14 +0000
Subject: [PATCH 085/119] fix: f8: wrong instruction lengths in disassembly

---
 src/sims/f8.src/glob.cc | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/sims/f8.src/glob.cc b/src/sims/f8.src/glob.cc
index 838a343..f0c4ba6 100644
--- a/src/sims/f8.src/glob.cc
+++ b/src/sims/f8.src/glob.cc
@@ -89,8 +89,8 @@ struct dis_entry disass_f8[]=
     { 0xce, 0xff, ' ', 2, "ldw ('nA_16'),%R" },
     { 0x70, 0xff, ' ', 1, "ldw %A, sp" },
     { 0x74, 0xff, ' ', 2, "ldw (('nsp_16')),%A" },
-    { 0xdc, 0xff, ' ', 2, "ldw %A,z" },
-    { 0xde, 0xff, ' ', 2, "ldw %R,(%A)" },
+    { 0xdc, 0xff, ' ', 1, "ldw %A,z" },
+    { 0xde, 0xff, ' ', 1, "ldw %R,(%A)" },
 
     { 0xed, 0xff, ' ', 2, "ldi ('ny_8'),(z)" },
     { 0xcf, 0xff, ' ', 2, "ldwi ('ny16'),(z)" },
@@ -98,7 +98,7 @@ struct dis_entry disass_f8[]=
     { 0x60, 0xff, ' ', 3, "push 'a16_8'" },
     { 0x61, 0xff, ' ', 2, "push ('nsp_8')" },
     { 0x62, 0xff, ' ', 1, "push %a" },
-    { 0x63, 0xff, ' ', 1, "push ('ny_8')" },
+    { 0x63, 0xff, ' ', 2, "push ('ny_8')" },
     { 0x90, 0xff, ' ', 2, "push #'i8'" },
 
     { 0xb0, 0xff, ' ', 3, "pushw 'a16_16'" },
@@ -114,7 +114,7 @@ struct dis_entry disass_f8[]=
     { 0x92, 0xff, ' ', 1, "xch %a,('y_8')" },
     { 0x93, 0xff, ' ', 1, "xch %L,%H" },
     { 0xf4, 0xff, ' ', 1, "xchw %R,('%A')" },
-    { 0xf5, 0xff, ' ', 1, "xchw %A,('nsp_16')" },
+    { 0xf5, 0xff, ' ', 2, "xchw %A,('nsp_16')" },
 
     { 0x9b, 0xff, ' ', 1, "cax ('y_8'),xh,yl" },
     { 0xf9, 0xff, ' ', 1, "caxw ('y_16'),z,x" },
@@ -122,7 +122,7 @@ struct dis_entry disass_f8[]=
     { 0x58, 0xff, ' ', 3, "clr 'a16_8'" },
     { 0x59, 0xff, ' ', 2, "clr ('nsp_8')" },
     { 0x5a, 0xff, ' ', 1, "clr %a" },
-    { 0x5b, 0xff, ' ', 1, "clr zh" },
+    { 0x5b, 0xff, ' ', 2, "clr ('ny_8')" },
     { 0xa0, 0xff, ' ', 3, "clrw 'a16_16'" },
     { 0xa1, 0xff, ' ', 2, "clrw ('nsp_16')" },
     { 0xa2, 0xff, ' ', 3, "clrw ('nnz_16')" },
@@ -235,32 +235,32 @@ struct dis_entry disass_f8[]=
     { 0x40, 0xff, ' ', 3, "srl 'a16_8'" },
     { 0x41, 0xff, ' ', 2, "srl ('nsp_8')" },
     { 0x42, 0xff, ' ', 1, "srl %a" },
-    { 0x43, 0xff, ' ', 1, "srl ('ny_8')" },
+    { 0x43, 0xff, ' ', 2, "srl ('ny_8')" },
     { 0x44, 0xff, ' ', 3, "sll 'a16_8'" },
     { 0x45, 0xff, ' ', 2, "sll ('nsp_8')" },
     { 0x46, 0xff, ' ', 1, "sll %a" },
-    { 0x47, 0xff, ' ', 1, "sll ('ny_8')" },
+    { 0x47, 0xff, ' ', 2, "sll ('ny_8')" },
     { 0x48, 0xff, ' ', 3, "rrc 'a16_8'" },
     { 0x49, 0xff, ' ', 2, "rrc ('nsp_8')" },
     { 0x4a, 0xff, ' ', 1, "rrc %a" },
-    { 0x4b, 0xff, ' ', 1, "rrc ('ny_8')" },
+    { 0x4b, 0xff, ' ', 2, "rrc ('ny_8')" },
     { 0x4c, 0xff, ' ', 3, "rlc 'a16_8'" },
     { 0x4d, 0xff, ' ', 2, "rlc ('nsp_8')" },
     { 0x4e, 0xff, ' ', 1, "rlc %a" },
-    { 0x4f, 0xff, ' ', 1, "rlc ('ny_8')" },
+    { 0x4f, 0xff, ' ', 2, "rlc ('ny_8')" },
 
     { 0x50, 0xff, ' ', 3, "inc 'a16_8'" },
     { 0x51, 0xff, ' ', 2, "inc ('nsp_8')" },
     { 0x52, 0xff, ' ', 1, "inc %a" },
-    { 0x53, 0xff, ' ', 1, "inc ('ny_8')" },
+    { 0x53, 0xff, ' ', 2, "inc ('ny_8')" },
     { 0x54, 0xff, ' ', 3, "dec 'a16_8'" },
     { 0x55, 0xff, ' ', 2, "dec ('nsp_8')" },
     { 0x56, 0xff, ' ', 1, "dec %a" },
-    { 0x57, 0xff, ' ', 1, "dec ('ny_8')" },
+    { 0x57, 0xff, ' ', 2, "dec ('ny_8')" },
     { 0x5c, 0xff, ' ', 3, "tst 'a16_8'" },
     { 0x5d, 0xff, ' ', 2, "tst ('nsp_8')" },
     { 0x5e, 0xff, ' ', 1, "tst %a" },
-    { 0x5f, 0xff, ' ', 1, "tst ('ny_8')" },
+    { 0x5f, 0xff, ' ', 2, "tst ('ny_8')" },
 
     { 0xa4, 0xff, ' ', 3, "incw 'a16_16'" },
     { 0xa5, 0xff, ' ', 2, "incw ('nsp_16')" },
-- 
2.43.0


From 901a8a10b3065a103ddfa0b53da5ccfb1706feba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:14 +0000
Subject: [PATCH 086/119] fix: i8085: wrong instruction length of processor
 specific instructions

---
 src/sims/i8085.src/i8080.cc  | 14 ++++++++++++++
 src/sims/i8085.src/i8080cl.h |  2 ++
 2 files changed, 16 insertions(+)

diff --git a/src/sims/i8085.src/i8080.cc b/src/sims/i8085.src/i8080.cc
index 8060511..0a6ae74 100644
--- a/src/sims/i8085.src/i8080.cc
+++ b/src/sims/i8085.src/i8080.cc
@@ -198,6 +198,20 @@ cl_i8080::get_dis_entry(t_addr addr)
   return NULL;
 }
 
+int
+cl_i8080::inst_length(t_addr addr)
+{
+  struct dis_entry *de= get_dis_entry(addr);
+  return de?de->length:1;
+}
+
+bool
+cl_i8080::is_call(t_addr addr)
+{
+  struct dis_entry *de= get_dis_entry(addr);
+  return de?de->is_call:false;
+}
+
 char rm_names[8]= {
   'B',
   'C',
diff --git a/src/sims/i8085.src/i8080cl.h b/src/sims/i8085.src/i8080cl.h
index b4b3abd..d6335d1 100644
--- a/src/sims/i8085.src/i8080cl.h
+++ b/src/sims/i8085.src/i8080cl.h
@@ -140,6 +140,8 @@ public:
   virtual int clock_per_cycle(void) { return 1; }
   virtual struct dis_entry *dis_tbl(void);
   virtual struct dis_entry *get_dis_entry(t_addr addr);
+  virtual int inst_length(t_addr addr);
+  virtual bool is_call(t_addr addr);
   virtual void dis_M(chars *comment);
   virtual void dis_rp8(chars *comment, int rp);
   virtual void dis_rp16(chars *comment, int rp);
-- 
2.43.0


From 3e97ec0c08f384a37c09bba7db231b1bda77c33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:51 +0000
Subject: [PATCH 087/119] fix: calls of several processors were not known as
 call by the next command

---
 src/core/motorola.src/g11p0.cc  |  2 +-
 src/core/motorola.src/g11p18.cc |  2 +-
 src/core/motorola.src/glob68.cc |  8 ++++----
 src/sims/f8.src/glob.cc         |  4 ++--
 src/sims/i8085.src/glob.cc      | 28 ++++++++++++++--------------
 src/sims/tlcs.src/glob.cc       | 16 ++++++++--------
 6 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/src/core/motorola.src/g11p0.cc b/src/core/motorola.src/g11p0.cc
index 1f467b2..5b9e1d6 100644
--- a/src/core/motorola.src/g11p0.cc
+++ b/src/core/motorola.src/g11p0.cc
@@ -47,7 +47,7 @@ struct dis_entry disass11p0[]= {
   { 0xa3, 0xff, ' ', 2, "SUB D,%X" },
   { 0xb3, 0xff, ' ', 3, "SUB D,%E" },
   { 0x8f, 0xff, ' ', 1, "XGDX" },
-  { 0x9d, 0xff, 'd', 2, "JSR %d" },
+  { 0x9d, 0xff, 'd', 2, "JSR %d", true },
   { 0xc3, 0xff, ' ', 3, "ADD D,%B" },
   { 0xd3, 0xff, ' ', 2, "ADD D,%D" },
   { 0xe3, 0xff, ' ', 2, "ADD D,%X" },
diff --git a/src/core/motorola.src/g11p18.cc b/src/core/motorola.src/g11p18.cc
index 8f8b2f3..b14dd61 100644
--- a/src/core/motorola.src/g11p18.cc
+++ b/src/core/motorola.src/g11p18.cc
@@ -67,7 +67,7 @@ struct dis_entry disass11p18[]= {
   { 0xaa, 0xff, ' ', 3, "ORA A,%x" },
   { 0xab, 0xff, ' ', 3, "ADD A,%x" },
   { 0xac, 0xff, ' ', 3, "CPY %X" },
-  { 0xad, 0xff, '_', 3, "JSR %X" },
+  { 0xad, 0xff, '_', 3, "JSR %X", true },
   { 0xae, 0xff, ' ', 3, "LDS %X" },
   { 0xaf, 0xff, ' ', 3, "STS %X" },
   { 0xbc, 0xff, ' ', 4, "CPY %E" },
diff --git a/src/core/motorola.src/glob68.cc b/src/core/motorola.src/glob68.cc
index 4891ab2..3f69d94 100644
--- a/src/core/motorola.src/glob68.cc
+++ b/src/core/motorola.src/glob68.cc
@@ -142,7 +142,7 @@ struct dis_entry disass_m6800[]=
     { 0x8a, 0xff, ' ', 2, "ORA A,%b" },
     { 0x8b, 0xff, ' ', 2, "ADD A,%b" },
     { 0x8c, 0xff, ' ', 3, "CPX %B" },
-    { 0x8d, 0xff, ' ', 2, "BSR %r" },
+    { 0x8d, 0xff, ' ', 2, "BSR %r", true },
     { 0x8e, 0xff, ' ', 3, "LDS %B" },
 
     { 0x90, 0xff, ' ', 2, "SUB A,%d" },
@@ -172,7 +172,7 @@ struct dis_entry disass_m6800[]=
     { 0xaa, 0xff, ' ', 2, "ORA A,%x" },
     { 0xab, 0xff, ' ', 2, "ADD A,%x" },
     { 0xac, 0xff, ' ', 2, "CPX %X" },
-    { 0xad, 0xff, '_', 2, "JSR %X" },
+    { 0xad, 0xff, '_', 2, "JSR %X", true },
     { 0xae, 0xff, ' ', 2, "LDS %X" },
     { 0xaf, 0xff, ' ', 2, "STS %X" },
 
@@ -188,7 +188,7 @@ struct dis_entry disass_m6800[]=
     { 0xba, 0xff, ' ', 3, "ORA A,%e" },
     { 0xbb, 0xff, ' ', 3, "ADD A,%e" },
     { 0xbc, 0xff, ' ', 3, "CPX %E" },
-    { 0xbd, 0xff, 'E', 3, "JSR %e" },
+    { 0xbd, 0xff, 'E', 3, "JSR %e", true },
     { 0xbe, 0xff, ' ', 3, "LDS %E" },
     { 0xbf, 0xff, ' ', 3, "STS %E" },
 
@@ -252,7 +252,7 @@ struct dis_entry disass_m6800[]=
 // code mask branch len mn call tick
 struct dis_entry disass_m6801[]=
   {
-    { 0x9d, 0xff, 'd', 2, "JSR %d" },
+    { 0x9d, 0xff, 'd', 2, "JSR %d", true },
     { 0x3c, 0xff, ' ', 1, "PSHX" },
     { 0x38, 0xff, ' ', 1, "PULX" },
 
diff --git a/src/sims/f8.src/glob.cc b/src/sims/f8.src/glob.cc
index f0c4ba6..d8fe1b5 100644
--- a/src/sims/f8.src/glob.cc
+++ b/src/sims/f8.src/glob.cc
@@ -312,8 +312,8 @@ struct dis_entry disass_f8[]=
     // branch
     { 0x64, 0xff, ' ', 3, "jp #'a16'" },
     { 0x65, 0xff, ' ', 1, "jp %A" },
-    { 0x66, 0xff, ' ', 3, "call #'a16'" },
-    { 0x67, 0xff, ' ', 1, "call %A" },
+    { 0x66, 0xff, ' ', 3, "call #'a16'", true },
+    { 0x67, 0xff, ' ', 1, "call %A", true },
     { 0xba, 0xff, ' ', 1, "ret" },
     { 0xbb, 0xff, ' ', 1, "reti" },
 
diff --git a/src/sims/i8085.src/glob.cc b/src/sims/i8085.src/glob.cc
index 4ff1fb2..5ed5426 100644
--- a/src/sims/i8085.src/glob.cc
+++ b/src/sims/i8085.src/glob.cc
@@ -98,15 +98,15 @@ struct dis_entry disass_common[]=
     { 0xf2, 0xff, ' ', 3, "JP 'a16'" },
     { 0xfa, 0xff, ' ', 3, "JM 'a16'" },
     
-    { 0xcd, 0xff, ' ', 3, "CALL 'a16'" },
-    { 0xc4, 0xff, ' ', 3, "CNZ 'a16'" },
-    { 0xcc, 0xff, ' ', 3, "CZ 'a16'" },
-    { 0xd4, 0xff, ' ', 3, "CNC 'a16'" },
-    { 0xdc, 0xff, ' ', 3, "CC 'a16'" },
-    { 0xe4, 0xff, ' ', 3, "CPO 'a16'" },
-    { 0xec, 0xff, ' ', 3, "CPE 'a16'" },
-    { 0xf4, 0xff, ' ', 3, "CP 'a16'" },
-    { 0xfc, 0xff, ' ', 3, "CM 'a16'" },
+    { 0xcd, 0xff, ' ', 3, "CALL 'a16'", true },
+    { 0xc4, 0xff, ' ', 3, "CNZ 'a16'", true },
+    { 0xcc, 0xff, ' ', 3, "CZ 'a16'", true },
+    { 0xd4, 0xff, ' ', 3, "CNC 'a16'", true },
+    { 0xdc, 0xff, ' ', 3, "CC 'a16'", true },
+    { 0xe4, 0xff, ' ', 3, "CPO 'a16'", true },
+    { 0xec, 0xff, ' ', 3, "CPE 'a16'", true },
+    { 0xf4, 0xff, ' ', 3, "CP 'a16'", true },
+    { 0xfc, 0xff, ' ', 3, "CM 'a16'", true },
     
     { 0xc9, 0xff, ' ', 1, "RET" },
     { 0xc0, 0xff, ' ', 1, "RNZ" },
@@ -118,7 +118,7 @@ struct dis_entry disass_common[]=
     { 0xf0, 0xff, ' ', 1, "RP" },
     { 0xf8, 0xff, ' ', 1, "RM" },
 
-    { 0xc7, 0xc7, ' ', 1, "RST 'rst'" },
+    { 0xc7, 0xc7, ' ', 1, "RST 'rst'", true },
     { 0xe9, 0xff, ' ', 1, "PCHL" },
 
     { 0, 0, 0, 0, 0, 0 }
@@ -135,9 +135,9 @@ struct dis_entry disass_8080[]=
     { 0x38, 0xff, ' ', 1, "*NOP" },
     { 0xd9, 0xff, ' ', 1, "*RET" },
     { 0xcb, 0xff, ' ', 3, "*JMP 'a16'" },
-    { 0xdd, 0xff, ' ', 3, "*CALL 'a16'" },
-    { 0xed, 0xff, ' ', 3, "*CALL 'a16'" },
-    { 0xfd, 0xff, ' ', 3, "*CALL 'a16'" },
+    { 0xdd, 0xff, ' ', 3, "*CALL 'a16'", true },
+    { 0xed, 0xff, ' ', 3, "*CALL 'a16'", true },
+    { 0xfd, 0xff, ' ', 3, "*CALL 'a16'", true },
     { 0, 0, 0, 0, 0, 0 }
   };
 
@@ -151,7 +151,7 @@ struct dis_entry disass_8085[]=
     { 0x08, 0xff, ' ', 1, "DSUB" },
     { 0xdd, 0xff, ' ', 3, "JNX5 'a16'" },
     { 0xfd, 0xff, ' ', 3, "JX5 'a16'" },
-    { 0xcb, 0xff, ' ', 1, "RSTV" },
+    { 0xcb, 0xff, ' ', 1, "RSTV", true },
     { 0x28, 0xff, ' ', 2, "LDHI 'hli8'" },
     { 0x38, 0xff, ' ', 2, "LDSI 'spi8'" },
     { 0xed, 0xff, ' ', 1, "LHLX 'de16'" },
diff --git a/src/sims/tlcs.src/glob.cc b/src/sims/tlcs.src/glob.cc
index 10f6125..219795e 100644
--- a/src/sims/tlcs.src/glob.cc
+++ b/src/sims/tlcs.src/glob.cc
@@ -776,7 +776,7 @@ struct dis_entry disass_t870c[]=
     { 0x0000f6e8, 0x0000fff8, ' ', 2, "ROLC 'r_0.0'" },
     { 0x0000f7e8, 0x0000fff8, ' ', 2, "RORC 'r_0.0'" },
     { 0x0000fae8, 0x0000fff8, ' ', 2, "NEG CS,'rr_0.0'" },
-    { 0x0000fde8, 0x0000fff8, ' ', 2, "CALL 'rr_0.0'" },
+    { 0x0000fde8, 0x0000fff8, ' ', 2, "CALL 'rr_0.0'", true },
     { 0x0000fee8, 0x0000fff8, ' ', 2, "JP 'rr_0.0'" },
     { 0x0000ffe8, 0x0000fff8, ' ', 2, "SWAP 'r_0.0'" },
 
@@ -1043,11 +1043,11 @@ struct dis_entry disass_t870c[]=
     { 0x00fc00d4, 0x00ff00fc, ' ', 3, "LD CF,('srcD').A" },
     { 0x0000fc4f, 0x0000ffff, ' ', 2, "LD CF,('src4').A" },
 
-    { 0x00fd00e0, 0x00ff00ff, ' ', 3, "CALL (%x)" },
-    { 0xfd0000e1, 0xff0000ff, ' ', 4, "CALL ('vw')" },
-    { 0x0000fde0, 0x0000fff8, ' ', 2, "CALL ('srcE')" },
-    { 0x00fd00d4, 0x00ff00fc, ' ', 3, "CALL ('srcD')" },
-    { 0x0000fd4f, 0x0000ffff, ' ', 2, "CALL ('src4')" },
+    { 0x00fd00e0, 0x00ff00ff, ' ', 3, "CALL (%x)", true },
+    { 0xfd0000e1, 0xff0000ff, ' ', 4, "CALL ('vw')", true },
+    { 0x0000fde0, 0x0000fff8, ' ', 2, "CALL ('srcE')", true },
+    { 0x00fd00d4, 0x00ff00fc, ' ', 3, "CALL ('srcD')", true },
+    { 0x0000fd4f, 0x0000ffff, ' ', 2, "CALL ('src4')", true },
 
     { 0x00fe00e0, 0x00ff00ff, ' ', 3, "JP (%x)" },
     { 0xfe0000e1, 0xff0000ff, ' ', 4, "JP ('vw')" },
@@ -1118,7 +1118,7 @@ struct dis_entry disass_t870c[]=
     { 0x00000066, 0x000000ff, ' ', 2, "OR A,'n_1'" },
     { 0x00000067, 0x000000ff, ' ', 2, "CMP A,'n_1'" },
 
-    { 0x00000070, 0x000000f0, ' ', 1, "CALLV 'vn'" },
+    { 0x00000070, 0x000000f0, ' ', 1, "CALLV 'vn'", true },
     
     { 0x00000080, 0x000000e0, ' ', 1, "JRS T,'ra5'" },
 
@@ -1132,7 +1132,7 @@ struct dis_entry disass_t870c[]=
     { 0x000000d8, 0x000000f8, ' ', 2, "JR 'cc','ra8'" },
     
     { 0x000000fc, 0x000000ff, ' ', 2, "JR 'ra8'" },
-    { 0x000000fd, 0x000000ff, ' ', 3, "CALL 'a16_1'" },
+    { 0x000000fd, 0x000000ff, ' ', 3, "CALL 'a16_1'", true },
     { 0x000000fe, 0x000000ff, ' ', 3, "JP 'a16_1'" },
     
     // one byte invalids
-- 
2.43.0


From 6fda0377e1c728554498930e31509ecaf4ea94ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:16 +0000
Subject: [PATCH 088/119] fix: calls of avr, i8048, pblaze, pdk, rabbit and
 prefixed calls were not known as call by the next command

---
 src/core/motorola.src/m6800.cc  |  7 +++++++
 src/core/motorola.src/m6800cl.h |  1 +
 src/sims/avr.src/glob.cc        |  4 ++--
 src/sims/f8.src/disass.cc       |  7 +++++++
 src/sims/f8.src/f8cl.h          |  1 +
 src/sims/i8048.src/decode.h     | 20 ++++++++++----------
 src/sims/pblaze.src/pblaze.cc   | 17 +++++++++++++++++
 src/sims/pblaze.src/pblazecl.h  |  1 +
 src/sims/pdk.src/glob.cc        | 10 +++++-----
 src/sims/pdk.src/pdk.cc         |  7 +++++++
 src/sims/pdk.src/pdkcl.h        |  3 ++-
 src/sims/rxk.src/glob.cc        | 14 +++++++-------
 src/sims/rxk.src/gp0m4.cc       |  2 +-
 src/sims/rxk.src/gpddm4.cc      |  2 +-
 src/sims/rxk.src/gpedm3a.cc     |  2 +-
 src/sims/rxk.src/gpedm4.cc      |  6 +++---
 src/sims/rxk.src/r3ka.cc        |  2 +-
 src/sims/rxk.src/r4k.cc         |  2 +-
 src/sims/rxk.src/rxk.cc         | 11 +++++++++--
 src/sims/rxk.src/rxkcl.h        |  1 +
 src/sims/tlcs.src/t870c.cc      |  7 +++++++
 src/sims/tlcs.src/t870ccl.h     |  1 +
 src/sims/tlcs.src/tlcs.cc       | 18 ++++++++++++++++++
 src/sims/tlcs.src/tlcscl.h      |  1 +
 24 files changed, 112 insertions(+), 35 deletions(-)

diff --git a/src/core/motorola.src/m6800.cc b/src/core/motorola.src/m6800.cc
index b200c46..5c63d01 100644
--- a/src/core/motorola.src/m6800.cc
+++ b/src/core/motorola.src/m6800.cc
@@ -459,6 +459,13 @@ cl_m6800::inst_length(t_addr addr)
   return 1;
 }
 
+bool
+cl_m6800::is_call(t_addr addr)
+{
+  struct dis_entry *de= get_dis_entry(addr);
+  return (de && de->mnemonic)?(de->is_call):false;
+}
+
 t_addr
 cl_m6800::read_addr(class cl_memory *m, t_addr start_addr)
 {
diff --git a/src/core/motorola.src/m6800cl.h b/src/core/motorola.src/m6800cl.h
index 3c849ec..1de80c5 100644
--- a/src/core/motorola.src/m6800cl.h
+++ b/src/core/motorola.src/m6800cl.h
@@ -192,6 +192,7 @@ public:
   virtual t_addr read_addr(class cl_memory *m, t_addr start_addr);
   virtual t_addr get_addr(class cl_memory *m, t_addr start_addr);
   virtual int inst_length(t_addr addr);
+  virtual bool is_call(t_addr addr);
   virtual int longest_inst(void) { return 4; }
   
   virtual void print_regs(class cl_console_base *con);
diff --git a/src/sims/avr.src/glob.cc b/src/sims/avr.src/glob.cc
index 94226d5..7bca1e6 100644
--- a/src/sims/avr.src/glob.cc
+++ b/src/sims/avr.src/glob.cc
@@ -87,7 +87,7 @@ struct dis_entry disass_avr[]= {
   { 0x1000, 0xfc00, ' ', 1, "cpse %d,%r" },
   { 0x940a, 0xfe0f, ' ', 1, "dec %d" },
   { 0x2400, 0xfc00, ' ', 1, "eor %d,%r" },
-  { 0x9509, 0xff0f, ' ', 1, "icall" },
+  { 0x9509, 0xff0f, ' ', 1, "icall", true },
   { 0x9409, 0xff0f, ' ', 1, "ijmp" },
   { 0xb000, 0xf800, ' ', 1, "in %d,%p" },
   { 0x9403, 0xfe0f, ' ', 1, "inc %d" },
@@ -116,7 +116,7 @@ struct dis_entry disass_avr[]= {
   { 0xb800, 0xf800, ' ', 1, "out %p,%d" },
   { 0x900f, 0xfe0f, ' ', 1, "pop %d" },
   { 0x920f, 0xfe0f, ' ', 1, "push %d" },
-  { 0xd000, 0xf000, ' ', 1, "rcall %a" },
+  { 0xd000, 0xf000, ' ', 1, "rcall %a", true },
   { 0x9508, 0xff9f, ' ', 1, "ret" },
   { 0x9518, 0xff9f, ' ', 1, "reti" },
   { 0xc000, 0xf000, ' ', 1, "rjmp %a" },
diff --git a/src/sims/f8.src/disass.cc b/src/sims/f8.src/disass.cc
index 5dcab6f..15e5f05 100644
--- a/src/sims/f8.src/disass.cc
+++ b/src/sims/f8.src/disass.cc
@@ -70,6 +70,13 @@ cl_f8::inst_length(t_addr addr)
   return de->length + s;
 }
 
+bool
+cl_f8::is_call(t_addr addr)
+{
+  struct dis_entry *de= get_dis_entry(addr);
+  return de?(de->is_call):false;
+}
+
 u8_t
 cl_f8::a8(u8_t prefs)
 {
diff --git a/src/sims/f8.src/f8cl.h b/src/sims/f8.src/f8cl.h
index 46c3637..32bf0ef 100644
--- a/src/sims/f8.src/f8cl.h
+++ b/src/sims/f8.src/f8cl.h
@@ -143,6 +143,7 @@ public:
   virtual struct dis_entry *dis_tbl(void);
   virtual struct dis_entry *get_dis_entry(t_addr addr);
   virtual int inst_length(t_addr addr);
+  virtual bool is_call(t_addr addr);
   virtual u8_t a8(u8_t prefs);
   virtual u16_t a16(u8_t prefs);
   virtual const char *a8_name(u8_t prefs);
diff --git a/src/sims/i8048.src/decode.h b/src/sims/i8048.src/decode.h
index 7b12907..371e2bc 100644
--- a/src/sims/i8048.src/decode.h
+++ b/src/sims/i8048.src/decode.h
@@ -23,7 +23,7 @@ DEC( 10, INCIR0 	, "inc @r0"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 11, INCIR1 	, "inc @r1"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 12, JB0		, "jb0 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 DEC( 13, ADCI8		, "addc a,'i8'"	, ' ', 2, false, 2, (void*)"8421" )
-DEC( 14, CALL0  	, "call 'a11'"	, '_', 2, false, 2, (void*)"8421" )
+DEC( 14, CALL0  	, "call 'a11'"	, '_', 2, true, 2, (void*)"8421" )
 DEC( 15, DISI		, "dis i"	, ' ', 1, false, 1, (void*)"842-" )
 DEC( 16, JTF		, "jtf 'a8'"	, 'i', 2, false, 2, (void*)"8421" )
 DEC( 17, INCA   	, "inc a"	, ' ', 1, false, 1, (void*)"8421" )
@@ -57,7 +57,7 @@ DEC( 30, XCHDIR0	, "xchd a,@r0"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 31, XCHDIR1	, "xchd a,@r1"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 32, JB1		, "jb1 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 // 33 undefined
-DEC( 34, CALL1  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"8421" )
+DEC( 34, CALL1  	, "call 'a11'"	, ' ', 2, true, 2, (void*)"8421" )
 DEC( 35, DISTCNTI	, "dis tcnti"	, ' ', 1, false, 1, (void*)"842-" ) //48,41,22
 DEC( 36, JT0		, "jt0 'a8'"	, 'i', 2, false, 2, (void*)"842-" ) //48,41,22
 DEC( 37, CPLA		, "cpl a"	, ' ', 1, false, 1, (void*)"8421" )
@@ -91,7 +91,7 @@ DEC( 50, ANLIR0		, "anl a,@r0"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 51, ANLIR1		, "anl a,@r1"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 52, JB2		, "jb2 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 DEC( 53, ANLI8		, "anl a,'i8'"	, ' ', 2, false, 1, (void*)"8421" )
-DEC( 54, CALL2  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"8421" )
+DEC( 54, CALL2  	, "call 'a11'"	, ' ', 2, true, 2, (void*)"8421" )
 DEC( 55, STRTT		, "strt t"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 56, JT1		, "jt1 'a8'"	, 'i', 2, false, 2, (void*)"8421" )
 DEC( 57, DAA		, "da a"	, ' ', 1, false, 1, (void*)"8421" )
@@ -124,8 +124,8 @@ DEC( 6f, ADDR7		, "add a,r7"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 70, ADCIR0		, "adc a,@r0"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 71, ADCIR1		, "adc a,@r1"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 72, JB3		, "jb3 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
-DEC( 74, CALL3  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"8421" )
-DEC( 75, ENT0CLK        , "ent0 clk"    , ' ', 2, false, 2, (void*)"8---" )
+DEC( 74, CALL3  	, "call 'a11'"	, ' ', 2, true, 2, (void*)"8421" )
+DEC( 75, ENT0CLK        , "ent0 clk"    , ' ', 1, false, 2, (void*)"8---" )
 DEC( 76, JF1		, "jf1 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 DEC( 77, RR		, "rr a"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 78, ADCR0		, "adc a,r0"	, ' ', 1, false, 1, (void*)"8421" )
@@ -164,11 +164,11 @@ DEC( 91, MOVXIR1A	, "movx @r1,a"	, ' ', 1, false, 2, (void*)"8---" ) //48
 DEC( 92, JB4		, "jb4 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 DEC( 93, RETR		, "retr"	, '_', 1, false, 2, (void*)"84--" ) //48,41
 DEC( 93, RETI		, "ret i"	, '_', 1, false, 2, (void*)"--2-" ) //22
-DEC( 94, CALL4  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"8-2-" ) //48,22
+DEC( 94, CALL4  	, "call 'a11'"	, ' ', 2, true, 2, (void*)"8-2-" ) //48,22
 DEC( 95, CPLF0		, "cpl f0"	, ' ', 1, false, 1, (void*)"84--" ) //48,41
 DEC( 96, JNZ		, "jnz 'a8'"	, ' ', 2, false, 2, (void*)"8421" )
 DEC( 97, CLRC		, "clr c"	, ' ', 1, false, 1, (void*)"8421" )
-DEC( 98, ANLBUSI8	, "anl bus,'i8'", ' ', 1, false, 2, (void*)"8---" ) //48
+DEC( 98, ANLBUSI8	, "anl bus,'i8'", ' ', 2, false, 2, (void*)"8---" ) //48
 DEC( 99, ANLP1I8	, "anl p1,'i8'"	, ' ', 2, false, 2, (void*)"84--" ) //48,41
 DEC( 9a, ANLP2I8	, "anl p2,'i8'"	, ' ', 2, false, 2, (void*)"84--" ) //48,41
 DEC( 9c, ANLDP4A	, "anl p4,a"	, ' ', 1, false, 2, (void*)"8421" )
@@ -197,7 +197,7 @@ DEC( b0, MOVIR0I8	, "mov @r0,'i8'", ' ', 2, false, 2, (void*)"8421" )
 DEC( b1, MOVIR1I8	, "mov @r1,'i8'", ' ', 2, false, 2, (void*)"8421" )
 DEC( b2, JB5		, "jb5 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 DEC( b3, JMPPIA		, "jmpp @a"	, '_', 1, false, 2, (void*)"8421" )
-DEC( b4, CALL5  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"8-2-" ) //48,22
+DEC( b4, CALL5  	, "call 'a11'"	, ' ', 2, true, 2, (void*)"8-2-" ) //48,22
 DEC( b5, CPLF1		, "cpl f1"	, ' ', 1, false, 1, (void*)"84--" ) //48,41
 DEC( b6, JF0		, "jf0 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 // b7 undefined
@@ -231,7 +231,7 @@ DEC( d0, XRLIR0		, "xrl a,@r0"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( d1, XRLIR1		, "xrl a,@r1"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( d2, JB6		, "jb6 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 DEC( d3, XRLI8		, "xrl a,'i8'"	, ' ', 2, false, 2, (void*)"8421" )
-DEC( d4, CALL6  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"8-2-" ) //48,22
+DEC( d4, CALL6  	, "call 'a11'"	, ' ', 2, true, 2, (void*)"8-2-" ) //48,22
 DEC( d5, SELRB1		, "sel rb1"	, ' ', 1, false, 1, (void*)"84--" ) //48,41
 DEC( d6, JNIBF 		, "jnibf 'a8'" 	, 'i', 2, false, 2, (void*)"-4--" ) //41
 DEC( d7, MOVFA		, "mov psw,a"	, ' ', 1, false, 1, (void*)"84--" ) //48,41
@@ -266,7 +266,7 @@ DEC( f0, MOVAIR0	, "mov a,@r0"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( f1, MOVAIR1	, "mov a,@r1"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( f2, JB7		, "jb7 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 // f3 undefined
-DEC( f4, CALL7  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"8-2-" ) //48,22
+DEC( f4, CALL7  	, "call 'a11'"	, ' ', 2, true, 2, (void*)"8-2-" ) //48,22
 DEC( f5, SELMB1		, "sel mb1"	, ' ', 1, false, 1, (void*)"8---" ) //48
 DEC( f5, ENFLAGS	, "en flags"	, ' ', 1, false, 1, (void*)"-4--" ) //41
 DEC( f6, JC		, "jc 'a8'"	, ' ', 2, false, 2, (void*)"8421" )
diff --git a/src/sims/pblaze.src/pblaze.cc b/src/sims/pblaze.src/pblaze.cc
index e5dc5f0..e00c44b 100644
--- a/src/sims/pblaze.src/pblaze.cc
+++ b/src/sims/pblaze.src/pblaze.cc
@@ -336,6 +336,23 @@ cl_pblaze::inst_length(t_addr addr)
   return len;
 }
 
+bool
+cl_pblaze::is_call(t_addr addr)
+{
+  struct dis_entry_pblaze *de= (type->type == CPU_PBLAZE_3)?disass_pblaze3:disass_pblaze6;
+  t_mem code= rom->get(addr);
+
+  while ((code & de->mask) != de->code && de->instruction != BAD_OPCODE)
+    de++;
+  switch (de->instruction)
+    {
+    case CALL: case CALL_C: case CALL_NC: case CALL_NZ: case CALL_Z: case CALL_AT:
+      return true;
+    default:
+      return false;
+    }
+}
+
 int
 cl_pblaze::inst_branch(t_addr addr)
 {
diff --git a/src/sims/pblaze.src/pblazecl.h b/src/sims/pblaze.src/pblazecl.h
index 771f987..9682b31 100644
--- a/src/sims/pblaze.src/pblazecl.h
+++ b/src/sims/pblaze.src/pblazecl.h
@@ -87,6 +87,7 @@ public:
   virtual double def_xtal(void) { return 8000000; }
   virtual int clock_per_cycle(void) { return(2); }
   virtual int inst_length(t_addr addr);
+  virtual bool is_call(t_addr addr);
   virtual int inst_branch(t_addr addr);
   virtual int longest_inst(void);
   virtual char *disass(t_addr addr);
diff --git a/src/sims/pdk.src/glob.cc b/src/sims/pdk.src/glob.cc
index 459d301..07f761e 100644
--- a/src/sims/pdk.src/glob.cc
+++ b/src/sims/pdk.src/glob.cc
@@ -123,7 +123,7 @@ struct dis_entry disass_pdk_13[]= {
   { 0x0013, ~0x0000, ' ', 1, "dzsn" },
   { 0x08C0, ~0x003F, ' ', 1, "dzsn %m" },
 
-  { 0x1C00, ~0x03FF, ' ', 1, "call 'a10'" },
+  { 0x1C00, ~0x03FF, ' ', 1, "call 'a10'", true },
   { 0x1800, ~0x03FF, ' ', 1, "goto 'a10'" },
 
   { 0x001E, ~0x0000, ' ', 1, "swap" },
@@ -223,7 +223,7 @@ struct dis_entry disass_pdk_14[]= {
   { 0x0063, ~0x0000, ' ', 1, "dzsn" },
   { 0x1180, ~0x007F, ' ', 1, "dzsn %m" },
 
-  { 0x3800, ~0x07FF, ' ', 1, "call 'a11'" },
+  { 0x3800, ~0x07FF, ' ', 1, "call 'a11'", true },
   { 0x3000, ~0x07FF, ' ', 1, "goto 'a11'" },
 
   { 0x0600, ~0x007F, ' ', 1, "comp a,%m" },
@@ -329,7 +329,7 @@ struct dis_entry disass_pdk_15[]= {
   { 0x0063, ~0x0000, ' ', 1, "dzsn" },
   { 0x2300, ~0x00FF, ' ', 1, "dzsn %m" },
 
-  { 0x7000, ~0x0FFF, ' ', 1, "call 'A12'" },
+  { 0x7000, ~0x0FFF, ' ', 1, "call 'A12'", true },
   { 0x6000, ~0x0FFF, ' ', 1, "goto 'A12'" },
 
   { 0x0C00, ~0x00FF, ' ', 1, "comp a,%m" },
@@ -463,7 +463,7 @@ struct dis_entry disass_pdk_16[]= {
   { 0x2a00, 0xfe00, ' ', 1, "wait0 %i,'n6'" },
   { 0x2c00, 0xfe00, ' ', 1, "wait1 %i,'n6'" },
   { 0x0600, 0xfe01, ' ', 1, "igoto %m" },
-  { 0x0601, 0xfe01, ' ', 1, "icall %m" },
+  { 0x0601, 0xfe01, ' ', 1, "icall %m", true },
   { 0x7e00, 0xfe00, ' ', 1, "delay %m" },
 
   { 0xa000, 0xf000, ' ', 1, "set0 %m,'n9'" },
@@ -471,7 +471,7 @@ struct dis_entry disass_pdk_16[]= {
   { 0x8000, 0xf000, ' ', 1, "t0sn %m,'n9'" },
   { 0x9000, 0xf000, ' ', 1, "t1sn %m,'n9'" },
 
-  { 0xe000, 0xe000, ' ', 1, "call 'a13'" },
+  { 0xe000, 0xe000, ' ', 1, "call 'a13'", true },
   { 0xc000, 0xe000, ' ', 1, "goto 'a13'" },
 
   { 0, 0, 0, 0, NULL }
diff --git a/src/sims/pdk.src/pdk.cc b/src/sims/pdk.src/pdk.cc
index 11d46a0..15526f8 100644
--- a/src/sims/pdk.src/pdk.cc
+++ b/src/sims/pdk.src/pdk.cc
@@ -976,6 +976,13 @@ cl_pdk::exec_inst(void)
 }
 
 
+bool
+cl_pdk::is_call(t_addr addr)
+{
+  struct dis_entry *de= fpps[0]->get_dis_entry(addr);
+  return (de && de->mnemonic)?(de->is_call):false;
+}
+
 char *
 cl_pdk::disassc(t_addr addr, chars *comment)
 {
diff --git a/src/sims/pdk.src/pdkcl.h b/src/sims/pdk.src/pdkcl.h
index eb3e687..9a73988 100644
--- a/src/sims/pdk.src/pdkcl.h
+++ b/src/sims/pdk.src/pdkcl.h
@@ -151,6 +151,7 @@ public:
   virtual int io_mask(void)= 0;
   virtual int rom_mask(void)= 0;
   //virtual char *disass(t_addr addr);
+  virtual bool is_call(t_addr addr);
   virtual char *disassc(t_addr addr, chars *comment);
   virtual void print_regs(class cl_console_base *con);
 
@@ -167,7 +168,6 @@ public:
                                       int *ret_branch,
                                       int *immed_offset,
                                       struct dis_entry **dentry);
-  virtual bool is_call(t_addr addr);
 
   virtual void reset(void);
 
@@ -267,6 +267,7 @@ public:
   virtual t_addr get_pc(int id);
   virtual void set_pc(int id, t_addr new_pc);
   
+  virtual bool is_call(t_addr addr);
   virtual int exec_inst(void);
 
   virtual char *disassc(t_addr addr, chars *comment);
diff --git a/src/sims/rxk.src/glob.cc b/src/sims/rxk.src/glob.cc
index be161b5..f4e1fe4 100644
--- a/src/sims/rxk.src/glob.cc
+++ b/src/sims/rxk.src/glob.cc
@@ -179,16 +179,16 @@ struct dis_entry disass_rxk[]=
     { 0xc6, 0xff, ' ', 2, "ADD A,%b" },
     { 0xc7, 0xff, ' ', 4, "LJP %l" },
     { 0xcc, 0xff, ' ', 1, "BOOL HL" },
-    { 0xcd, 0xff, ' ', 3, "CALL %w" },
+    { 0xcd, 0xff, ' ', 3, "CALL %w", true },
     { 0xce, 0xff, ' ', 2, "ADC A,%b" },
-    { 0xcf, 0xff, ' ', 4, "LCALL %l" },
+    { 0xcf, 0xff, ' ', 4, "LCALL %l", true },
     { 0xd4, 0xff, ' ', 2, "LD (SP+%b),HL" },
     { 0xd6, 0xff, ' ', 2, "SUB A,%b" },
-    { 0xd7, 0xff, ' ', 1, "RST 10" },
-    { 0xdf, 0xff, ' ', 1, "RST 18" },
-    { 0xe7, 0xff, ' ', 1, "RST 20" },
-    { 0xef, 0xff, ' ', 1, "RST 28" },
-    { 0xff, 0xff, ' ', 1, "RST 38" },
+    { 0xd7, 0xff, ' ', 1, "RST 10", true },
+    { 0xdf, 0xff, ' ', 1, "RST 18", true },
+    { 0xe7, 0xff, ' ', 1, "RST 20", true },
+    { 0xef, 0xff, ' ', 1, "RST 28", true },
+    { 0xff, 0xff, ' ', 1, "RST 38", true },
     { 0xd9, 0xff, ' ', 1, "EXX" },
     { 0xdc, 0xff, ' ', 1, "AND HL,DE" },
     { 0xec, 0xff, ' ', 1, "OR HL,DE" },
diff --git a/src/sims/rxk.src/gp0m4.cc b/src/sims/rxk.src/gp0m4.cc
index 430ae26..7fe900f 100644
--- a/src/sims/rxk.src/gp0m4.cc
+++ b/src/sims/rxk.src/gp0m4.cc
@@ -81,7 +81,7 @@ struct dis_entry disass_p0m4[]=
     { 0x9d, 0xff, ' ', 2, "LD (PX%d),A" },
     { 0xad, 0xff, ' ', 2, "LD (PY%d),A" },
     { 0xbd, 0xff, ' ', 2, "LD (PZ%d),A" },
-    { 0x8f, 0xff, ' ', 5, "LLCALL %w,%w" },
+    { 0x8f, 0xff, ' ', 5, "LLCALL %w,%w", true },
     { 0x97, 0xff, ' ', 1, "LD LXPC,HL" },
     { 0x9f, 0xff, ' ', 1, "LD HL,LXPC" },
     { 0x98, 0xff, ' ', 3, "JRE %R" },
diff --git a/src/sims/rxk.src/gpddm4.cc b/src/sims/rxk.src/gpddm4.cc
index bdc5426..5f3312c 100644
--- a/src/sims/rxk.src/gpddm4.cc
+++ b/src/sims/rxk.src/gpddm4.cc
@@ -107,7 +107,7 @@ struct dis_entry disass_pddm4[]=
     { 0xed, 0xff, ' ', 2, "LD %3,PY" },
     { 0xfd, 0xff, ' ', 2, "LD %3,PZ" },
     { 0xff, 0xff, ' ', 2, "LD (SP+HL),%3" },
-    { 0xea, 0xff, ' ', 2, "CALL (%I)" },
+    { 0xea, 0xff, ' ', 2, "CALL (%I)", true },
     { 0xfe, 0xff, ' ', 2, "LD %3,(SP+HL)" },
 
     { 0, 0, 0, 0, 0, 0, 0 }
diff --git a/src/sims/rxk.src/gpedm3a.cc b/src/sims/rxk.src/gpedm3a.cc
index 190d994..c27ce9d 100644
--- a/src/sims/rxk.src/gpedm3a.cc
+++ b/src/sims/rxk.src/gpedm3a.cc
@@ -34,7 +34,7 @@ struct dis_entry disass_pedm3a[]=
     { 0x6f, 0xff, ' ', 2, "SETUSR" },
     { 0x7d, 0xff, ' ', 2, "SURES" },
     { 0x7f, 0xff, ' ', 2, "RDMODE" },
-    { 0x75, 0xff, ' ', 2, "SYSCALL" },
+    { 0x75, 0xff, ' ', 2, "SYSCALL", true },
     { 0x98, 0xff, ' ', 2, "LDDSR" },
     { 0x90, 0xff, ' ', 2, "LDISR" },
     { 0xd8, 0xff, ' ', 2, "LSDDR" },
diff --git a/src/sims/rxk.src/gpedm4.cc b/src/sims/rxk.src/gpedm4.cc
index b82cf9c..37080b9 100644
--- a/src/sims/rxk.src/gpedm4.cc
+++ b/src/sims/rxk.src/gpedm4.cc
@@ -64,16 +64,16 @@ struct dis_entry disass_pedm4[]=
     { 0xb4, 0xff, ' ', 2, "FLAG LT,HL" },
     { 0xac, 0xff, ' ', 2, "FLAG GTU,HL" },
     { 0xbc, 0xff, ' ', 2, "FLAG V,HL" },
-    { 0xea, 0xff, ' ', 2, "CALL (HL)" },
+    { 0xea, 0xff, ' ', 2, "CALL (HL)", true },
     { 0x8b, 0xff, ' ', 2, "LLRET" },
     { 0xd9, 0xff, ' ', 2, "EXP" },
     { 0x40, 0xff, ' ', 2, "LD HTR,A" },
     { 0x50, 0xff, ' ', 2, "LD A,HTR" },
-    { 0x55, 0xff, ' ', 2, "SCALL" },
+    { 0x55, 0xff, ' ', 2, "SCALL", true },
     { 0x83, 0xff, ' ', 2, "SRET" },
     { 0xb5, 0xff, ' ', 4, "SETUSRP %w" },
     { 0xb1, 0xff, ' ', 4, "SETSYSP %w" },
-    { 0xfa, 0xff, ' ', 2, "LLCALL (JKHL)" },
+    { 0xfa, 0xff, ' ', 2, "LLCALL (JKHL)", true },
     { 0x03, 0xff, ' ', 2, "LDL PW,(SP+%b)" },
     { 0x13, 0xff, ' ', 2, "LDL PX,(SP+%b)" },
     { 0x23, 0xff, ' ', 2, "LDL PY,(SP+%b)" },
diff --git a/src/sims/rxk.src/r3ka.cc b/src/sims/rxk.src/r3ka.cc
index be1fa47..ee1809d 100644
--- a/src/sims/rxk.src/r3ka.cc
+++ b/src/sims/rxk.src/r3ka.cc
@@ -111,7 +111,7 @@ cl_r3ka::dis_entry(t_addr addr)
 
       return NULL;
     }
-  if ((code & 0xdd) == 0xdd)
+  if ((code == 0xdd) || (code == 0xfd))
     {
       if (code == 0xdd)
 	{
diff --git a/src/sims/rxk.src/r4k.cc b/src/sims/rxk.src/r4k.cc
index 847eed8..0ab7976 100644
--- a/src/sims/rxk.src/r4k.cc
+++ b/src/sims/rxk.src/r4k.cc
@@ -198,7 +198,7 @@ cl_r4k::dis_entry(t_addr addr)
       
       return NULL;
     }
-  if ((code & 0xdd) == 0xdd)
+  if ((code == 0xdd) || (code == 0xfd))
     {
       if (code == 0xdd)
 	{
diff --git a/src/sims/rxk.src/rxk.cc b/src/sims/rxk.src/rxk.cc
index 8f58211..56b77a5 100644
--- a/src/sims/rxk.src/rxk.cc
+++ b/src/sims/rxk.src/rxk.cc
@@ -252,7 +252,7 @@ cl_rxk::dis_entry(t_addr addr)
 	return &dt[i];
       return NULL;
     }
-  if ((code & 0xdd) == 0xdd)
+  if ((code == 0xdd) || (code == 0xfd))
     {
       if (code == 0xdd)
 	{
@@ -644,6 +644,13 @@ cl_rxk::inst_length(t_addr addr)
   return dt->length;
 }
 
+bool
+cl_rxk::is_call(t_addr addr)
+{
+  struct dis_entry *de= dis_entry(addr);
+  return (de && de->mnemonic)?(de->is_call):false;
+}
+
 
 static FILE *log_file= NULL;
 static unsigned int cyc= 0;
@@ -802,7 +809,7 @@ cl_rxk::exec_inst(void)
       code= fetch();
       return itab_ed[code](this, code);
     }
-  if ((code & 0xdd) == 0xdd)
+  if ((code == 0xdd) || (code == 0xfd))
     {
       if (code == 0xdd)
 	{
diff --git a/src/sims/rxk.src/rxkcl.h b/src/sims/rxk.src/rxkcl.h
index 7783697..f0ea2bd 100644
--- a/src/sims/rxk.src/rxkcl.h
+++ b/src/sims/rxk.src/rxkcl.h
@@ -171,6 +171,7 @@ public:
   virtual char *disassc_cb_6(t_addr addr, chars *comment= NULL);
   virtual char *disassc_dd_cb(t_addr addr, chars *comment= NULL);
   virtual int inst_length(t_addr addr);
+  virtual bool is_call(t_addr addr);
   virtual int longest_inst(void) { return 4; }
   virtual void disass_irr(chars *work, bool dd) {}
   virtual void disass_irrl(chars *work, bool dd) {}
diff --git a/src/sims/tlcs.src/t870c.cc b/src/sims/tlcs.src/t870c.cc
index b56a5d7..4dd6b3c 100644
--- a/src/sims/tlcs.src/t870c.cc
+++ b/src/sims/tlcs.src/t870c.cc
@@ -615,6 +615,13 @@ cl_t870c::inst_length(t_addr addr)
   return de->length;
 }
 
+bool
+cl_t870c::is_call(t_addr addr)
+{
+  struct dis_entry *de= get_dis_entry(addr);
+  return (de && de->mnemonic)?(de->is_call):false;
+}
+
 u16_t
 cl_t870c::aof_dstF(u32_t code32)
 {
diff --git a/src/sims/tlcs.src/t870ccl.h b/src/sims/tlcs.src/t870ccl.h
index f1c246a..4148214 100644
--- a/src/sims/tlcs.src/t870ccl.h
+++ b/src/sims/tlcs.src/t870ccl.h
@@ -161,6 +161,7 @@ public:
   virtual char *disassc(t_addr addr, chars *comment);
   virtual int longest_inst(void) { return 5; }
   virtual int inst_length(t_addr addr);
+  virtual bool is_call(t_addr addr);
   virtual u16_t aof_dstF(u32_t code32);
   virtual u16_t aof_dst5(u32_t code32);
   virtual u16_t aof_srcE(u32_t code32);
diff --git a/src/sims/tlcs.src/tlcs.cc b/src/sims/tlcs.src/tlcs.cc
index 6be78a2..b5c4d65 100644
--- a/src/sims/tlcs.src/tlcs.cc
+++ b/src/sims/tlcs.src/tlcs.cc
@@ -493,6 +493,24 @@ cl_tlcs::inst_length(t_addr addr)
     return de->length;
 }
 
+bool
+cl_tlcs::is_call(t_addr addr)
+{
+  struct dis_entry *de;
+  u64_t c= 0;
+  int i;
+  
+  for (i= 7; i>=0; i--)
+    {
+      c<<= 8;
+      c|= u8_t(rom->get(addr+i));
+    }
+  for (de= dis_tbl(); de->mnemonic != NULL; de++)
+    if ((c & de->mask) == u64_t(de->code))
+      return de->is_call;
+  return false;
+}
+
 void
 cl_tlcs::print_regs(class cl_console_base *con)
 {
diff --git a/src/sims/tlcs.src/tlcscl.h b/src/sims/tlcs.src/tlcscl.h
index 801fb83..7c705e9 100644
--- a/src/sims/tlcs.src/tlcscl.h
+++ b/src/sims/tlcs.src/tlcscl.h
@@ -186,6 +186,7 @@ public:
   virtual char *disass(t_addr addr);
   virtual void print_regs(class cl_console_base *con);
   virtual int inst_length(t_addr addr);
+  virtual bool is_call(t_addr addr);
 
   virtual void stack_check_overflow(class cl_stack_op *op);
   
-- 
2.43.0


From 8fe6ec01e63100a496fa1668de8e7ec616c458b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:00 +0000
Subject: [PATCH 089/119] fix: tlcs: wrong instruction lengths in disassembly,
 AND HL,(rr) was unknown

---
 src/sims/tlcs.src/glob.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sims/tlcs.src/glob.cc b/src/sims/tlcs.src/glob.cc
index 219795e..c4e68e3 100644
--- a/src/sims/tlcs.src/glob.cc
+++ b/src/sims/tlcs.src/glob.cc
@@ -61,7 +61,7 @@ struct dis_entry disass_tlcs[]= {
   { 0x1e, 0xff, ' ', 1, "RET" },
   { 0x1f, 0xff, ' ', 1, "RETI" },
   { 0x000037, 0x0000ff, 'n', 3, "LD (0xff%n),%N" },
-  { 0x00003f, 0x0000ff, 'm', 3, "LDW (0xff%n),%m" },
+  { 0x00003f, 0x0000ff, 'm', 4, "LDW (0xff%n),%m" },
   { 0x0097, 0x00ff, 'n', 2, "INCW (0xff%n)" },
   { 0x009F, 0x00ff, 'n', 2, "DECW (0xff%n)" },
   { 0xa0, 0xff, ' ', 1, "RLCA" },
@@ -325,7 +325,7 @@ struct dis_entry disass_tlcs[]= {
   {     0xD000f4,     0xf000fc, ' ', 3, "CALL %F%I%d", true },
   {     0x2000f4,     0xf800fc, ' ', 3, "LD (%I%d),%t" },
   {     0x3800f4,     0xf800fc, ' ', 3, "LDA %u,%I%d" },
-  {     0x4000f4,     0xf800fc, ' ', 4, "LD (%I%d),%u" },
+  {     0x4000f4,     0xf800fc, ' ', 3, "LD (%I%d),%u" },
   /* Others in exec_inst: c1&0xf8 */
   { 0x20, 0xf8, 'r', 1, "LD A,%r" },
   { 0x28, 0xf8, 'r', 1, "LD %r,A" },
@@ -364,7 +364,7 @@ struct dis_entry disass_tlcs[]= {
   { 0x71e0, 0xfff8, 'R', 2, "ADC HL,(%R)" },
   { 0x72e0, 0xfff8, 'R', 2, "SUB HL,(%R)" },
   { 0x73e0, 0xfff8, 'R', 2, "SBC HL,(%R)" },
-  { 0x70e0, 0xfff8, 'R', 2, "AND HL,(%R)" },
+  { 0x74e0, 0xfff8, 'R', 2, "AND HL,(%R)" },
   { 0x75e0, 0xfff8, 'R', 2, "XOR HL,(%R)" },
   { 0x76e0, 0xfff8, 'R', 2, "OR HL,(%R)" },
   { 0x77e0, 0xfff8, 'R', 2, "CP HL,(%R)" },
@@ -1090,7 +1090,7 @@ struct dis_entry disass_t870c[]=
     { 0x00000018, 0x000000f8, ' ', 2, "LD 'r_0.0','n_1'" },
 
     { 0x00000020, 0x000000f8, ' ', 1, "INC 'r_0.0'" },
-    { 0x00000028, 0x000000f8, ' ', 2, "DEC 'r_0.0'" },
+    { 0x00000028, 0x000000f8, ' ', 1, "DEC 'r_0.0'" },
 
     { 0x00000037, 0x000000ff, ' ', 2, "LD SP,SP+'n_1'" },
     { 0x00000030, 0x000000f8, ' ', 1, "INC 'rr_0.0'" },    
-- 
2.43.0


From 41c6cb6492b94d85fc1b7e7a90a55677508d6907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:16 +0000
Subject: [PATCH 090/119] fix: rabbit: wrong instruction lengths and operands
 in disassembly, RST taken as prefix

---
 src/sims/rxk.src/glob.cc   |  6 +++---
 src/sims/rxk.src/gp0m4.cc  |  4 ++--
 src/sims/rxk.src/gpddm3.cc |  4 ++--
 src/sims/rxk.src/gpddm4.cc | 16 +++++++--------
 src/sims/rxk.src/gpedm4.cc | 40 +++++++++++++++++++-------------------
 src/sims/rxk.src/rxk.cc    |  5 +++++
 6 files changed, 40 insertions(+), 35 deletions(-)

diff --git a/src/sims/rxk.src/glob.cc b/src/sims/rxk.src/glob.cc
index f4e1fe4..3f58691 100644
--- a/src/sims/rxk.src/glob.cc
+++ b/src/sims/rxk.src/glob.cc
@@ -245,7 +245,7 @@ struct dis_entry disass_r6k[]=
     { 0xf87ed, 0xffff, ' ', 2, "SWAP B" },
     { 0xf96ed, 0xffff, ' ', 2, "TSTNULL PX" },
     { 0xf97ed, 0xffff, ' ', 2, "SWAP C" },
-    { 0xf9aed, 0xffff, ' ', 6, "LLJP LEU,%X,%w" },
+    { 0xf9aed, 0xffff, ' ', 6, "LLJP LEU,%X,%a" },
     { 0xf9bed, 0xffff, ' ', 4, "JRE LEU,%R" },
     { 0xf9ced, 0xffff, ' ', 2, "FLAG LEU,HL" },
     { 0xfa6ed, 0xffff, ' ', 2, "TSTNULL PY" },
@@ -258,11 +258,11 @@ struct dis_entry disass_r6k[]=
     { 0xfd7ed, 0xffff, ' ', 2, "SWAP L" },
     { 0xfdeed, 0xffff, ' ', 2, "SBC JKHL,BCDE" },
     { 0xfdfed, 0xffff, ' ', 2, "SWAP DE" },
-    { 0xfe2ed, 0xffff, ' ', 6, "LLJP GE,%X,%w" },
+    { 0xfe2ed, 0xffff, ' ', 6, "LLJP GE,%X,%a" },
     { 0xfe3ed, 0xffff, ' ', 4, "JRE GE,%R" },
     { 0xfe4ed, 0xffff, ' ', 2, "FLAG GE,HL" },
     { 0xfefed, 0xffff, ' ', 2, "SWAP HL" },
-    { 0xff2ed, 0xffff, ' ', 6, "LLJP LE,%X,%w" },
+    { 0xff2ed, 0xffff, ' ', 6, "LLJP LE,%X,%a" },
     { 0xff3ed, 0xffff, ' ', 4, "JRE LE,%R" },
     { 0xff4ed, 0xffff, ' ', 2, "FLAG LE,HL" },
     { 0xff7ed, 0xffff, ' ', 2, "SWAP A" },
diff --git a/src/sims/rxk.src/gp0m4.cc b/src/sims/rxk.src/gp0m4.cc
index 7fe900f..3acb29d 100644
--- a/src/sims/rxk.src/gp0m4.cc
+++ b/src/sims/rxk.src/gp0m4.cc
@@ -60,7 +60,7 @@ struct dis_entry disass_p0m4[]=
     { 0x96, 0xff, ' ', 2, "LD (PX%d),HL" },
     { 0xa6, 0xff, ' ', 2, "LD (PY%d),HL" },
     { 0xb6, 0xff, ' ', 2, "LD (PZ%d),HL" },
-    { 0x87, 0xff, ' ', 5, "LLJP %w,%w" },
+    { 0x87, 0xff, ' ', 5, "LLJP %X,%a" },
     { 0x89, 0xff, ' ', 3, "LD (%w),JK" },
     { 0x99, 0xff, ' ', 3, "LD JK,(%w)" },
     { 0x8a, 0xff, ' ', 4, "LDF (%l),A" },
@@ -81,7 +81,7 @@ struct dis_entry disass_p0m4[]=
     { 0x9d, 0xff, ' ', 2, "LD (PX%d),A" },
     { 0xad, 0xff, ' ', 2, "LD (PY%d),A" },
     { 0xbd, 0xff, ' ', 2, "LD (PZ%d),A" },
-    { 0x8f, 0xff, ' ', 5, "LLCALL %w,%w", true },
+    { 0x8f, 0xff, ' ', 5, "LLCALL %X,%a", true },
     { 0x97, 0xff, ' ', 1, "LD LXPC,HL" },
     { 0x9f, 0xff, ' ', 1, "LD HL,LXPC" },
     { 0x98, 0xff, ' ', 3, "JRE %R" },
diff --git a/src/sims/rxk.src/gpddm3.cc b/src/sims/rxk.src/gpddm3.cc
index 39f2eb5..2957fd7 100644
--- a/src/sims/rxk.src/gpddm3.cc
+++ b/src/sims/rxk.src/gpddm3.cc
@@ -85,9 +85,9 @@ struct dis_entry disass_pddm3[]=
     { 0xf4, 0xff, ' ', 3, "LD (%J%d),HL" },
     
     { 0x64, 0xff, ' ', 2, "LDP (%I),HL" },
-    { 0x64, 0xff, ' ', 4, "LDP (%w),%I" },
+    { 0x65, 0xff, ' ', 4, "LDP (%w),%I" },
     { 0x6c, 0xff, ' ', 2, "LDP HL,(%I)" },
-    { 0x6d, 0xff, ' ', 2, "LDP %I,(%w)" },
+    { 0x6d, 0xff, ' ', 4, "LDP %I,(%w)" },
 
     { 0xe9, 0xff, ' ', 2, "JP (%I)" },
 
diff --git a/src/sims/rxk.src/gpddm4.cc b/src/sims/rxk.src/gpddm4.cc
index 5f3312c..4f6969b 100644
--- a/src/sims/rxk.src/gpddm4.cc
+++ b/src/sims/rxk.src/gpddm4.cc
@@ -82,14 +82,14 @@ struct dis_entry disass_pddm4[]=
     { 0x1d, 0xff, ' ', 2, "LD (PX+HL),%3" },
     { 0x2d, 0xff, ' ', 2, "LD (PY+HL),%3" },
     { 0x3d, 0xff, ' ', 2, "LD (PZ+HL),%3" },
-    { 0x0e, 0xff, ' ', 2, "LD %3,(PW%d)" },
-    { 0x1e, 0xff, ' ', 2, "LD %3,(PX%d)" },
-    { 0x2e, 0xff, ' ', 2, "LD %3,(PY%d)" },
-    { 0x3e, 0xff, ' ', 2, "LD %3,(PZ%d)" },
-    { 0x0f, 0xff, ' ', 2, "LD (PW%d),%3" },
-    { 0x1f, 0xff, ' ', 2, "LD (PX%d),%3" },
-    { 0x2f, 0xff, ' ', 2, "LD (PY%d),%3" },
-    { 0x3f, 0xff, ' ', 2, "LD (PZ%d),%3" },
+    { 0x0e, 0xff, ' ', 3, "LD %3,(PW%d)" },
+    { 0x1e, 0xff, ' ', 3, "LD %3,(PX%d)" },
+    { 0x2e, 0xff, ' ', 3, "LD %3,(PY%d)" },
+    { 0x3e, 0xff, ' ', 3, "LD %3,(PZ%d)" },
+    { 0x0f, 0xff, ' ', 3, "LD (PW%d),%3" },
+    { 0x1f, 0xff, ' ', 3, "LD (PX%d),%3" },
+    { 0x2f, 0xff, ' ', 3, "LD (PY%d),%3" },
+    { 0x3f, 0xff, ' ', 3, "LD (PZ%d),%3" },
     { 0x8c, 0xff, ' ', 2, "LDL PW,%I" },
     { 0x9c, 0xff, ' ', 2, "LDL PX,%I" },
     { 0xac, 0xff, ' ', 2, "LDL PY,%I" },
diff --git a/src/sims/rxk.src/gpedm4.cc b/src/sims/rxk.src/gpedm4.cc
index 37080b9..e0a7511 100644
--- a/src/sims/rxk.src/gpedm4.cc
+++ b/src/sims/rxk.src/gpedm4.cc
@@ -39,14 +39,14 @@ struct dis_entry disass_pedm4[]=
     { 0x10, 0xff, ' ', 3, "DWJNZ %r" },
     { 0x48, 0xff, ' ', 2, "CP HL,DE" },
     { 0x4c, 0xff, ' ', 2, "TEST BC" },
-    { 0xa2, 0xff, ' ', 6, "LLJP GT,%X,%w" },
-    { 0xaa, 0xff, ' ', 6, "LLJP GTU,%X,%w" },
-    { 0xb2, 0xff, ' ', 6, "LLJP LT,%X,%w" },
-    { 0xba, 0xff, ' ', 6, "LLJP V,%X,%w" },
-    { 0xc2, 0xff, ' ', 6, "LLJP NZ,%X,%w" },
-    { 0xca, 0xff, ' ', 6, "LLJP Z,%X,%w" },
-    { 0xd2, 0xff, ' ', 6, "LLJP NC,%X,%w" },
-    { 0xda, 0xff, ' ', 6, "LLJP C,%X,%w" },
+    { 0xa2, 0xff, ' ', 6, "LLJP GT,%X,%a" },
+    { 0xaa, 0xff, ' ', 6, "LLJP GTU,%X,%a" },
+    { 0xb2, 0xff, ' ', 6, "LLJP LT,%X,%a" },
+    { 0xba, 0xff, ' ', 6, "LLJP V,%X,%a" },
+    { 0xc2, 0xff, ' ', 6, "LLJP NZ,%X,%a" },
+    { 0xca, 0xff, ' ', 6, "LLJP Z,%X,%a" },
+    { 0xd2, 0xff, ' ', 6, "LLJP NC,%X,%a" },
+    { 0xda, 0xff, ' ', 6, "LLJP C,%X,%a" },
     { 0xa5, 0xff, ' ', 4, "PUSH %w" },
     { 0xa3, 0xff, ' ', 4, "JRE GT,%R" },
     { 0xb3, 0xff, ' ', 4, "JRE LT,%R" },
@@ -74,18 +74,18 @@ struct dis_entry disass_pedm4[]=
     { 0xb5, 0xff, ' ', 4, "SETUSRP %w" },
     { 0xb1, 0xff, ' ', 4, "SETSYSP %w" },
     { 0xfa, 0xff, ' ', 2, "LLCALL (JKHL)", true },
-    { 0x03, 0xff, ' ', 2, "LDL PW,(SP+%b)" },
-    { 0x13, 0xff, ' ', 2, "LDL PX,(SP+%b)" },
-    { 0x23, 0xff, ' ', 2, "LDL PY,(SP+%b)" },
-    { 0x33, 0xff, ' ', 2, "LDL PZ,(SP+%b)" },
-    { 0x04, 0xff, ' ', 2, "LD PW,(SP+%b)" },
-    { 0x14, 0xff, ' ', 2, "LD PX,(SP+%b)" },
-    { 0x24, 0xff, ' ', 2, "LD PY,(SP+%b)" },
-    { 0x34, 0xff, ' ', 2, "LD PZ,(SP+%b)" },
-    { 0x05, 0xff, ' ', 2, "LD (SP+%b),PW" },
-    { 0x15, 0xff, ' ', 2, "LD (SP+%b),PX" },
-    { 0x25, 0xff, ' ', 2, "LD (SP+%b),PY" },
-    { 0x35, 0xff, ' ', 2, "LD (SP+%b),PZ" },
+    { 0x03, 0xff, ' ', 3, "LDL PW,(SP+%b)" },
+    { 0x13, 0xff, ' ', 3, "LDL PX,(SP+%b)" },
+    { 0x23, 0xff, ' ', 3, "LDL PY,(SP+%b)" },
+    { 0x33, 0xff, ' ', 3, "LDL PZ,(SP+%b)" },
+    { 0x04, 0xff, ' ', 3, "LD PW,(SP+%b)" },
+    { 0x14, 0xff, ' ', 3, "LD PX,(SP+%b)" },
+    { 0x24, 0xff, ' ', 3, "LD PY,(SP+%b)" },
+    { 0x34, 0xff, ' ', 3, "LD PZ,(SP+%b)" },
+    { 0x05, 0xff, ' ', 3, "LD (SP+%b),PW" },
+    { 0x15, 0xff, ' ', 3, "LD (SP+%b),PX" },
+    { 0x25, 0xff, ' ', 3, "LD (SP+%b),PY" },
+    { 0x35, 0xff, ' ', 3, "LD (SP+%b),PZ" },
     { 0x06, 0xff, ' ', 2, "LD HL,(PW+BC)" },
     { 0x16, 0xff, ' ', 2, "LD HL,(PX+BC)" },
     { 0x26, 0xff, ' ', 2, "LD HL,(PY+BC)" },
diff --git a/src/sims/rxk.src/rxk.cc b/src/sims/rxk.src/rxk.cc
index 56b77a5..356ef99 100644
--- a/src/sims/rxk.src/rxk.cc
+++ b/src/sims/rxk.src/rxk.cc
@@ -437,6 +437,11 @@ cl_rxk::disassc(t_addr addr, chars *comment)
 	      else
 		work.append("IY");
 	      break;
+	    case 'a': // 16 bit address before LXPC
+	      l= rom->get(addr+1);
+	      h= rom->get(addr+2);
+	      work.appendf("0x%04x", h*256+l);
+	      break;
 	    case 'X': // LXPC 0 1 2 3 xpl xph
 	      {
 		u16_t x;
-- 
2.43.0


From 0229f7aff47414b2960ee10afab829510e870025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:52 +0000
Subject: [PATCH 091/119] fix: stm8: wrong instruction lengths in disassembly;
 huc6280: undefined codes executed as STO

---
 src/sims/mos6502.src/glob.cc    |  6 ++++++
 src/sims/mos6502.src/huc6280.cc | 14 +++++++-------
 src/sims/stm8.src/glob.cc       | 13 ++++++-------
 3 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/sims/mos6502.src/glob.cc b/src/sims/mos6502.src/glob.cc
index 7d48b4f..935b01e 100644
--- a/src/sims/mos6502.src/glob.cc
+++ b/src/sims/mos6502.src/glob.cc
@@ -335,6 +335,12 @@ struct dis_entry disass_huc6280[]=
     { 0xd4, 0xff, ' ', 1, "CSH" },
     { 0xf4, 0xff, ' ', 1, "SET" },
 
+    { 0xe2, 0xff, ' ', 1, "NOP" },
+    { 0x5c, 0xff, ' ', 1, "NOP" },
+    { 0xdc, 0xff, ' ', 1, "NOP" },
+    { 0xfc, 0xff, ' ', 1, "NOP" },
+    { 0x0b, 0x0f, ' ', 1, "NOP" },
+
     { 0, 0, 0, 0, 0, 0 }
   };
 
diff --git a/src/sims/mos6502.src/huc6280.cc b/src/sims/mos6502.src/huc6280.cc
index 9781c70..8e8a6b9 100644
--- a/src/sims/mos6502.src/huc6280.cc
+++ b/src/sims/mos6502.src/huc6280.cc
@@ -61,14 +61,14 @@ cl_huc6280::init(void)
   cl_mos6502::init();
   // Map all 0x_b into NOP 1,1
   for (i=0x0b; i<=0xfb; i+= 0x10)
-    itab[i]= instruction_wrapper_03;
+    itab[i]= instruction_wrapper_ea;
   // some other non-codes
-  itab[0xe2]= instruction_wrapper_03;
-  itab[0x33]= instruction_wrapper_03;
-  itab[0x63]= instruction_wrapper_03;
-  itab[0x5c]= instruction_wrapper_03;
-  itab[0xdc]= instruction_wrapper_03;
-  itab[0xfc]= instruction_wrapper_03;
+  itab[0xe2]= instruction_wrapper_ea;
+  itab[0x33]= instruction_wrapper_ea;
+  itab[0x63]= instruction_wrapper_ea;
+  itab[0x5c]= instruction_wrapper_ea;
+  itab[0xdc]= instruction_wrapper_ea;
+  itab[0xfc]= instruction_wrapper_ea;
   
   address_spaces->add(mpras);
   memchips->add(mprch);
diff --git a/src/sims/stm8.src/glob.cc b/src/sims/stm8.src/glob.cc
index 2e39b50..960af5a 100644
--- a/src/sims/stm8.src/glob.cc
+++ b/src/sims/stm8.src/glob.cc
@@ -182,7 +182,6 @@ struct dis_entry disass_stm8[]= {
   { 0x00e6, 0x00ff, ' ', 2, "ld A,(%1,X)" },
   { 0x00f6, 0x00ff, ' ', 1, "ld A,(X)" },
   { 0x006b, 0x00ff, ' ', 2, "ld (%1,SP),A" },
-  { 0x00a7, 0x00ff, ' ', 2, "ld %b,A" },
   { 0x00b7, 0x00ff, ' ', 2, "ld %d,A" },
   { 0x00c7, 0x00ff, ' ', 3, "ld %x,A" },
   { 0x00d7, 0x00ff, ' ', 3, "ld (%2,X),A" },
@@ -358,7 +357,6 @@ struct dis_entry disass_stm8_72[]= {
   { 0x00bb, 0x00ff, ' ', 3, "addw X,%x" },
   { 0x00b9, 0x00ff, ' ', 3, "addw Y,%x" },
   { 0x00a9, 0x00ff, ' ', 3, "addw Y,%w" },
-  { 0x00f9, 0x00ff, ' ', 3, "addw Y,%d" },
   { 0x00fb, 0x00ff, ' ', 2, "addw X,(%1,SP)" },
   { 0x00f9, 0x00ff, ' ', 2, "addw Y,(%1,SP)" },
   { 0x00c4, 0x00ff, ' ', 3, "and A,[%2.w]" },
@@ -691,10 +689,10 @@ struct dis_entry disass_stm8_91[]= {
   { 0x00d7, 0x00ff, ' ', 2, "ld ([%1.w],Y),A" },
   { 0x00a7, 0x00ff, ' ', /*2*/3, "ldf ([%2.e],Y),A" }, // 91
   { 0x00af, 0x00ff, ' ', /*2*/3, "ldf A,([%2.e],Y)" },
-  { 0x00ce, 0x00ff, ' ', 3, "ldw Y,[%1.w]" },
-  { 0x00de, 0x00ff, ' ', 3, "ldw Y,([%1.w],Y)" },
-  { 0x00cf, 0x00ff, ' ', 3, "ldw [%1.w],Y" },
-  { 0x00df, 0x00ff, ' ', 3, "ldw ([%1.w],Y),X" },
+  { 0x00ce, 0x00ff, ' ', 2, "ldw Y,[%1.w]" },
+  { 0x00de, 0x00ff, ' ', 2, "ldw Y,([%1.w],Y)" },
+  { 0x00cf, 0x00ff, ' ', 2, "ldw [%1.w],Y" },
+  { 0x00df, 0x00ff, ' ', 2, "ldw ([%1.w],Y),X" },
   { 0x0060, 0x00ff, ' ', 2, "neg ([%1.w],Y)" },
   { 0x00da, 0x00ff, ' ', 2, "or A,([%1.w],Y)" },
   { 0x0069, 0x00ff, ' ', 2, "rlc ([%1.w],Y)" },
@@ -746,7 +744,8 @@ struct dis_entry disass_stm8_92[]= {
   { 0x00d7, 0x00ff, ' ', 2, "ld ([%1.w],X),A" },
   { 0x00a7, 0x00ff, ' ', /*2*/3, "ldf ([%2.e],X),A" },
   { 0x00af, 0x00ff, ' ', /*2*/3, "ldf A,([%2.e],X)" },
-  { 0x00bc, 0x00ff, ' ', 2, "ldf A,[%1.e]" },
+  { 0x00bc, 0x00ff, ' ', 3, "ldf A,[%2.e]" },
+  { 0x00bd, 0x00ff, ' ', 3, "ldf [%2.e],A" },
   { 0x00ce, 0x00ff, ' ', 2, "ldw X,[%1.w]" },
   { 0x00de, 0x00ff, ' ', 2, "ldw X,([%1.w],X)" },
   { 0x00cf, 0x00ff, ' ', 2, "ldw [%1.w],X" },
-- 
2.43.0


From 5de336ce45e5b92acc96f21c1be61e4031e341e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:36 +0000
Subject: [PATCH 092/119] fix: st7: JP took its target from the addressed
 memory, direct modes of Y instructions and undefined codes were not decoded,
 wrong lengths in disassembly

---
 src/sims/st7.src/glob.cc | 26 +++++++++++++-------------
 src/sims/st7.src/inst.cc |  8 ++++----
 src/sims/st7.src/st7.cc  |  6 +++---
 3 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/sims/st7.src/glob.cc b/src/sims/st7.src/glob.cc
index 4571a78..f5231af 100644
--- a/src/sims/st7.src/glob.cc
+++ b/src/sims/st7.src/glob.cc
@@ -150,7 +150,7 @@ struct dis_entry disass_st7[]= {
   { 0x00e1, 0x00ff, ' ', 2, "cp A,(%1,X)" },
   { 0x00f1, 0x00ff, ' ', 1, "cp A,(X)" },
 //  { 0x0013, 0x00ff, ' ', 2, "cpw X,(%1,SP)" },
-  { 0x00a3, 0x00ff, ' ', 3, "cp X,%w" },
+  { 0x00a3, 0x00ff, ' ', 2, "cp X,%b" },
   { 0x00b3, 0x00ff, ' ', 2, "cp X,%d" },
   { 0x00c3, 0x00ff, ' ', 3, "cp X,%x" },
   { 0x00d3, 0x00ff, ' ', 3, "cp X,(%2,X)" },
@@ -248,8 +248,8 @@ struct dis_entry disass_st7[]= {
 //  { 0x001f, 0x00ff, ' ', 2, "ldw (%1,SP),X" },
   { 0x00bf, 0x00ff, ' ', 2, "ld %d,X" },
   { 0x00cf, 0x00ff, ' ', 3, "ld %x,X" },
-  { 0x00df, 0x00ff, ' ', 3, "ld (%2,X),Y" },
-  { 0x00ef, 0x00ff, ' ', 2, "ld (%1,X),Y" },
+  { 0x00df, 0x00ff, ' ', 3, "ld (%2,X),X" },
+  { 0x00ef, 0x00ff, ' ', 2, "ld (%1,X),X" },
   { 0x00ff, 0x00ff, ' ', 1, "ld (X),Y" },
 //  { 0x0016, 0x00ff, ' ', 2, "ldw Y,(%1,SP)" },
 //  { 0x0017, 0x00ff, ' ', 2, "ldw (%1,SP),Y" },
@@ -577,14 +577,14 @@ struct dis_entry disass_st7_91[]= {
   { 0x00e7, 0x00ff, ' ', 2, "ld ([%1],Y),A" },
 //  { 0x00a7, 0x00ff, ' ', 2, "ldf ([%2.e],Y),A" },
 //  { 0x00af, 0x00ff, ' ', 2, "ldf A,([%2.e],Y)" },
-  { 0x00be, 0x00ff, ' ', 3, "ld Y,[%1]" },
-  { 0x00ce, 0x00ff, ' ', 3, "ld Y,[%1.w]" },
-  { 0x00de, 0x00ff, ' ', 3, "ld Y,([%1.w],Y)" },
-  { 0x00ee, 0x00ff, ' ', 3, "ld Y,([%1],Y)" },
-  { 0x00bf, 0x00ff, ' ', 3, "ld [%1],Y" },
-  { 0x00cf, 0x00ff, ' ', 3, "ld [%1.w],Y" },
-  { 0x00df, 0x00ff, ' ', 3, "ld ([%1.w],Y),Y" },
-  { 0x00ef, 0x00ff, ' ', 3, "ld ([%1],Y),Y" },
+  { 0x00be, 0x00ff, ' ', 2, "ld Y,[%1]" },
+  { 0x00ce, 0x00ff, ' ', 2, "ld Y,[%1.w]" },
+  { 0x00de, 0x00ff, ' ', 2, "ld Y,([%1.w],Y)" },
+  { 0x00ee, 0x00ff, ' ', 2, "ld Y,([%1],Y)" },
+  { 0x00bf, 0x00ff, ' ', 2, "ld [%1],Y" },
+  { 0x00cf, 0x00ff, ' ', 2, "ld [%1.w],Y" },
+  { 0x00df, 0x00ff, ' ', 2, "ld ([%1.w],Y),Y" },
+  { 0x00ef, 0x00ff, ' ', 2, "ld ([%1],Y),Y" },
   { 0x0060, 0x00ff, ' ', 2, "neg ([%1],Y)" },
   { 0x00da, 0x00ff, ' ', 2, "or A,([%1.w],Y)" },
   { 0x00ea, 0x00ff, ' ', 2, "or A,([%1],Y)" },
@@ -660,10 +660,10 @@ struct dis_entry disass_st7_92[]= {
   { 0x000c, 0x00ff, ' ', 3, "btjt [%1],#6,%p" },
   { 0x000e, 0x00ff, ' ', 3, "btjt [%1],#7,%p" },
 
-  { 0x00cd, 0x00ff, ' ', 2, "call [%1]", true },
+  { 0x00bd, 0x00ff, ' ', 2, "call [%1]", true },
   { 0x00cd, 0x00ff, ' ', 2, "call [%1.w]", true },
   { 0x00dd, 0x00ff, ' ', 2, "call ([%1.w],X)", true },
-  { 0x00dd, 0x00ff, ' ', 2, "call ([%1],X)", true },
+  { 0x00ed, 0x00ff, ' ', 2, "call ([%1],X)", true },
   { 0x00ad, 0x00ff, ' ', 2, "callr [%1]", true },
 //  { 0x008d, 0x00ff, ' ', 3, "callf [%2.e]", true },
   { 0x003f, 0x00ff, ' ', 2, "clr [%1]" },
diff --git a/src/sims/st7.src/inst.cc b/src/sims/st7.src/inst.cc
index 986d0ed..e50673b 100644
--- a/src/sims/st7.src/inst.cc
+++ b/src/sims/st7.src/inst.cc
@@ -51,9 +51,9 @@ cl_st7::fetchea(t_mem code, unsigned char prefix)
   switch ((code >> 4) & 0x0f) {
 	
     case 0xb:
-	  if ( 0 == prefix) {              // short direct
+	  if ( 0 == prefix || 0x90 == prefix) {              // short direct
 		 resaddr = fetch();
-     } else if ( 0x92 == prefix) {    // short indirect - pointer
+     } else if ( 0x91 == prefix || 0x92 == prefix) {    // short indirect - pointer
        resaddr = get1(fetch());
 	  } else {
 	    resaddr = ( resHALT);
@@ -61,9 +61,9 @@ cl_st7::fetchea(t_mem code, unsigned char prefix)
      break;
      
     case 0xc:
-	  if ( 0 == prefix) {              // long direct
+	  if ( 0 == prefix || 0x90 == prefix) {              // long direct
 		resaddr = fetch2();
-	  } else if ( 0x92 == prefix) {    // long indirect - pointer is under 0x100
+	  } else if ( 0x91 == prefix || 0x92 == prefix) {    // long indirect - pointer is under 0x100
        ftc = fetch();
        resaddr = get2(ftc);
 	  } else {
diff --git a/src/sims/st7.src/st7.cc b/src/sims/st7.src/st7.cc
index e211641..980d317 100644
--- a/src/sims/st7.src/st7.cc
+++ b/src/sims/st7.src/st7.cc
@@ -823,7 +823,7 @@ cl_st7::exec_inst(void)
             return (resGO);
             break;
          case 0xA0:
-            break;
+            return(resINV_INST);
          case 0xB0:
          case 0xC0:
          case 0xD0:
@@ -1017,13 +1017,13 @@ cl_st7::exec_inst(void)
             return (resGO);
             break;
          case 0xA0:
-            break;
+            return(resINV_INST);
          case 0xB0:
          case 0xC0:
          case 0xD0:
          case 0xE0:
          case 0xF0: // JP
-            PC = OPERAND(code, cprefix);
+            PC = fetchea(code, cprefix);
             return( resGO);
             break;
          case 0x80: // 
-- 
2.43.0


From d967d2bc91f54926024eb940d4dd820c5e70b0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:06 +0000
Subject: [PATCH 093/119] fix: mcs51: reset left the selected DPTR, further
 DPTRs, PCA mode and MDU operands as they were

---
 src/sims/s51.src/mdu.cc  | 23 +++++++++++++++++++++++
 src/sims/s51.src/mducl.h |  3 +++
 src/sims/s51.src/pca.cc  | 16 ++++++++++++++--
 src/sims/s51.src/uc51.cc | 14 ++++++++++++++
 4 files changed, 54 insertions(+), 2 deletions(-)

diff --git a/src/sims/s51.src/mdu.cc b/src/sims/s51.src/mdu.cc
index 8168f17..bf3f16b 100644
--- a/src/sims/s51.src/mdu.cc
+++ b/src/sims/s51.src/mdu.cc
@@ -36,6 +36,14 @@ cl_mdu::cl_mdu(class cl_uc *auc, int aid):
 {
 }
 
+void
+cl_mdu::reset(void)
+{
+  int i;
+  for (i= 0; i<6; i++)
+    v[i]= 0;
+}
+
 void
 cl_mdu::op_32udiv16(void)
 {
@@ -178,6 +186,14 @@ cl_mdu517::init(void)
   return 0;
 }
 
+void
+cl_mdu517::reset(void)
+{
+  cl_mdu::reset();
+  nuof_writes= 0;
+  writes= 0xffffffffffffULL;
+}
+
 t_mem
 cl_mdu517::read(class cl_memory_cell *cell)
 {
@@ -378,6 +394,13 @@ cl_mdu88x::init(void)
   return 0;
 }
 
+void
+cl_mdu88x::reset(void)
+{
+  cl_mdu::reset();
+  ticks= 0;
+}
+
 t_mem
 cl_mdu88x::read(class cl_memory_cell *cell)
 {
diff --git a/src/sims/s51.src/mducl.h b/src/sims/s51.src/mducl.h
index c79a7e2..b3d81da 100644
--- a/src/sims/s51.src/mducl.h
+++ b/src/sims/s51.src/mducl.h
@@ -39,6 +39,7 @@ class cl_mdu: public cl_hw
   class cl_memory_cell *con; // CONTROL register
  public:
   cl_mdu(class cl_uc *auc, int aid);
+  virtual void reset(void);
 
   virtual void op_32udiv16(void);
   virtual void op_16udiv16(void);
@@ -62,6 +63,7 @@ class cl_mdu517: public cl_mdu
  public:
   cl_mdu517(class cl_uc *auc, int aid);
   virtual int init(void);
+  virtual void reset(void);
   
   virtual t_mem read(class cl_memory_cell *cell);
   virtual void write(class cl_memory_cell *cell, t_mem *val);
@@ -82,6 +84,7 @@ class cl_mdu88x: public cl_mdu
  public:
   cl_mdu88x(class cl_uc *auc, int aid);
   virtual int init(void);
+  virtual void reset(void);
   
   virtual t_mem read(class cl_memory_cell *cell);
   virtual void write(class cl_memory_cell *cell, t_mem *val);
diff --git a/src/sims/s51.src/pca.cc b/src/sims/s51.src/pca.cc
index 04b11c4..661b215 100644
--- a/src/sims/s51.src/pca.cc
+++ b/src/sims/s51.src/pca.cc
@@ -41,8 +41,14 @@ cl_pca::cl_pca(class cl_uc *auc, int aid):
   cl_hw(auc, HW_PCA, aid, "pca")
 {
   t0_overflows= ECI_edge= 0;
+  bit_CIDL= bit_WDTE= bit_ECF= bit_CR= 0;
+  clk_source= 0;
   int i;
-  for (i= 0; i < 5; cex_pos[i]= cex_neg[i]= false, i++) ;
+  for (i= 0; i < 5; i++)
+    {
+      cex_pos[i]= cex_neg[i]= false;
+      ccapm[i]= 0;
+    }
 }
 
 int
@@ -313,8 +319,14 @@ void
 cl_pca::reset(void)
 {
   t0_overflows= ECI_edge= 0;
+  bit_CIDL= bit_WDTE= bit_ECF= bit_CR= 0;
+  clk_source= 0;
   int i;
-  for (i= 0; i < 5; cex_pos[i]= cex_neg[i]= false, i++) ;
+  for (i= 0; i < 5; i++)
+    {
+      cex_pos[i]= cex_neg[i]= false;
+      ccapm[i]= 0;
+    }
 }
 
 void
diff --git a/src/sims/s51.src/uc51.cc b/src/sims/s51.src/uc51.cc
index 7a1e09a..e7bfb87 100644
--- a/src/sims/s51.src/uc51.cc
+++ b/src/sims/s51.src/uc51.cc
@@ -1570,6 +1570,20 @@ cl_51core::clear_sfr(void)
 
   for (i= 0x80; i <= 0xff; i++)
     sfr->set(i, 0);
+  if (cpu)
+    {
+      // select first DPTR, clear all of them
+      t_addr adps= cpu->cfg_get(uc51cpu_aof_mdps);
+      t_addr adpc= cpu->cfg_get(uc51cpu_aof_mdpc);
+      class cl_memory *dptr_chip= memory("dptr_chip");
+      if (adps > 0x7f)
+	sfr->write(adps, 0);
+      if (adpc > 0x7f)
+	sfr->write(adpc, 0);
+      if (dptr_chip)
+	for (i= 0; i < dptr_chip->get_size(); i++)
+	  dptr_chip->set(i, 0);
+    }
   sfr->/*set*/write(P0, 0xff);
   sfr->/*set*/write(P1, 0xff);
   sfr->/*set*/write(P2, 0xff);
-- 
2.43.0


From a1e8fbbc451fb389f0d7642d92db9eabdff2e697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:09 +0000
Subject: [PATCH 094/119] fix: mos6502: zero page pointers read from page one,
 JMP (abs) at a page end, clock counts of stores, shifts, JSR, NOP, BRK and
 decimal mode, BRK ignored in a BRK handler

---
 src/sims/mos6502.src/ibranch.cc   |  7 +++--
 src/sims/mos6502.src/inst.cc      |  1 +
 src/sims/mos6502.src/mos6502.cc   | 52 +++++++++++++++++++++++++++----
 src/sims/mos6502.src/mos6502cl.h  | 14 ++++++---
 src/sims/mos6502.src/mos65c02.cc  | 33 ++++++++++++++++++--
 src/sims/mos6502.src/mos65c02cl.h |  7 +++++
 src/sims/mos6502.src/mos65c02s.cc | 20 +++---------
 7 files changed, 102 insertions(+), 32 deletions(-)

diff --git a/src/sims/mos6502.src/ibranch.cc b/src/sims/mos6502.src/ibranch.cc
index 51acdc2..2b005a0 100644
--- a/src/sims/mos6502.src/ibranch.cc
+++ b/src/sims/mos6502.src/ibranch.cc
@@ -42,8 +42,10 @@ int
 cl_mos6502::JMPi(t_mem code)
 {
   u16_t a= i16();
-  a= read_addr(rom, a);
-  PC= a;
+  // high byte of the pointer comes from the same page
+  u8_t l= rom->read(a);
+  u8_t h= rom->read((a & 0xff00) | ((a+1) & 0xff));
+  PC= h*256+l;
   vc.rd+= 2;
   tick(4);
   return resGO;
@@ -61,6 +63,7 @@ cl_mos6502::JSR(t_mem code)
   op->init();
   stack_write(op);
   PC= a;
+  tick(3);
   return resGO;
 }
 
diff --git a/src/sims/mos6502.src/inst.cc b/src/sims/mos6502.src/inst.cc
index 677740d..321608c 100644
--- a/src/sims/mos6502.src/inst.cc
+++ b/src/sims/mos6502.src/inst.cc
@@ -31,6 +31,7 @@ Software Foundation, 59 Temple Place - Suite 330, Boston, MA
 int
 cl_mos6502::NOP(t_mem code)
 {
+  tick(1);
   return resGO;
 }
 
diff --git a/src/sims/mos6502.src/mos6502.cc b/src/sims/mos6502.src/mos6502.cc
index 1ac7d4d..0ca12d2 100644
--- a/src/sims/mos6502.src/mos6502.cc
+++ b/src/sims/mos6502.src/mos6502.cc
@@ -487,7 +487,16 @@ cl_mos6502::read_addr(class cl_memory *m, t_addr start_addr)
 {
   u8_t h, l;
   l= m->read(start_addr);
-  h= m->read(start_addr+1);
+  h= m->read((start_addr+1) & 0xffff);
+  return h*256+l;
+}
+
+// pointer in the zero page, never read from page one
+u16_t
+cl_mos6502::read_zaddr(u8_t a)
+{
+  u8_t l= rom->read(a);
+  u8_t h= rom->read((u8_t)(a+1));
   return h*256+l;
 }
 
@@ -580,8 +589,7 @@ cl_mos6502::ind(void)
 class cl_cell8 &
 cl_mos6502::zind(void)
 {
-  u16_t a= fetch();
-  a= read_addr(rom, a);
+  u16_t a= read_zaddr(fetch());
   class cl_cell8 *c= (class cl_cell8 *)rom->get_cell(a);
   vc.rd+= 2;
   tick(4);
@@ -592,7 +600,7 @@ class cl_cell8 &
 cl_mos6502::indX(void)
 {
   u8_t a0= fetch() + rX;
-  u16_t a= read_addr(rom, a0);
+  u16_t a= read_zaddr(a0);
   class cl_cell8 *c= (class cl_cell8 *)rom->get_cell(a);
   vc.rd+= 3;
   tick(5);
@@ -602,7 +610,7 @@ cl_mos6502::indX(void)
 class cl_cell8 &
 cl_mos6502::indY(void)
 {
-  u16_t a1= read_addr(rom, fetch());
+  u16_t a1= read_zaddr(fetch());
   u16_t a2= a1 + rY;
   class cl_cell8 *c= (class cl_cell8 *)rom->get_cell(a2);
   vc.rd+= 3;
@@ -612,6 +620,35 @@ cl_mos6502::indY(void)
   return *c;
 }
 
+// indexed operands of writing instructions always take the extra cycle
+
+class cl_cell8 &
+cl_mos6502::wrabsX(void)
+{
+  u16_t a= i16() + rX;
+  vc.rd++;
+  tick(4);
+  return *(class cl_cell8 *)rom->get_cell(a);
+}
+
+class cl_cell8 &
+cl_mos6502::wrabsY(void)
+{
+  u16_t a= i16() + rY;
+  vc.rd++;
+  tick(4);
+  return *(class cl_cell8 *)rom->get_cell(a);
+}
+
+class cl_cell8 &
+cl_mos6502::wrindY(void)
+{
+  u16_t a= read_zaddr(fetch()) + rY;
+  vc.rd+= 3;
+  tick(5);
+  return *(class cl_cell8 *)rom->get_cell(a);
+}
+
 u8_t
 cl_mos6502::L2i(u8_t L)
 {
@@ -706,7 +743,7 @@ cl_mos6502::accept_it(class it_level *il)
 {
   class cl_it_src *is= il->source;
 
-  tick(2);
+  tick(set_b?1:2); // one is counted at fetch of BRK
   push_addr(PC);
   rom->write(SPh + rSP, rF|0x20);
   if (set_b)
@@ -722,6 +759,9 @@ cl_mos6502::accept_it(class it_level *il)
 
   rF|= flagI;
   is->clear();
+  if (is != src_nmi)
+    // flag I holds off requests, not the level in service
+    il->level= ((class it_level *)(it_levels->top()))->level;
   it_levels->push(il);
   
   return resGO;
diff --git a/src/sims/mos6502.src/mos6502cl.h b/src/sims/mos6502.src/mos6502cl.h
index 7e063e2..d53ff56 100644
--- a/src/sims/mos6502.src/mos6502cl.h
+++ b/src/sims/mos6502.src/mos6502cl.h
@@ -135,6 +135,7 @@ public:
   virtual struct dis_entry *get_dis_entry(t_addr addr);
   virtual char *disassc(t_addr addr, chars *comment=NULL);
   virtual t_addr read_addr(class cl_memory *m, t_addr start_addr);
+  virtual u16_t read_zaddr(u8_t a);
 
   virtual void print_regs(class cl_console_base *con);
   virtual int inst_length(t_addr addr);
@@ -165,23 +166,26 @@ public:
   virtual class cl_cell8 &zind(void);
   virtual class cl_cell8 &indX(void);
   virtual class cl_cell8 &indY(void);
+  virtual class cl_cell8 &wrabsX(void);
+  virtual class cl_cell8 &wrabsY(void);
+  virtual class cl_cell8 &wrindY(void);
   // write operands
   virtual class cl_cell8 &dstzpg(void) { vc.wr++; return zpg(); }
   virtual class cl_cell8 &dstzpgX(void) { vc.wr++; return zpgX(); }
   virtual class cl_cell8 &dstzpgY(void) { vc.wr++; return zpgY(); }
   virtual class cl_cell8 &dstabs(void) { vc.wr++; return abs(); }
-  virtual class cl_cell8 &dstabsX(void) { vc.wr++; return absX(); }
-  virtual class cl_cell8 &dstabsY(void) { vc.wr++; return absY(); }
+  virtual class cl_cell8 &dstabsX(void) { vc.wr++; return wrabsX(); }
+  virtual class cl_cell8 &dstabsY(void) { vc.wr++; return wrabsY(); }
   virtual class cl_cell8 &dstind(void) { vc.wr++; return ind(); }
   virtual class cl_cell8 &dstzind(void) { vc.wr++; return zind(); }
   virtual class cl_cell8 &dstindX(void) { vc.wr++; return indX(); }
-  virtual class cl_cell8 &dstindY(void) { vc.wr++; return indY(); }
+  virtual class cl_cell8 &dstindY(void) { vc.wr++; return wrindY(); }
   // read-modify-write operands
   virtual class cl_cell8 &rmwzpg(void) { vc.rd++;vc.wr++;tick(2); return zpg(); }
   virtual class cl_cell8 &rmwzpgX(void) { vc.rd++;vc.wr++;tick(2); return zpgX(); }
   virtual class cl_cell8 &rmwzpgY(void) { vc.rd++;vc.wr++;tick(2); return zpgY(); }
   virtual class cl_cell8 &rmwabs(void) { vc.rd++;vc.wr++;tick(2); return abs(); }
-  virtual class cl_cell8 &rmwabsX(void) { vc.rd++;vc.wr++;tick(3); return absX(); }
+  virtual class cl_cell8 &rmwabsX(void) { vc.rd++;vc.wr++;tick(2); return wrabsX(); }
   virtual class cl_cell8 &rmwabsY(void) { vc.rd++;vc.wr++;tick(3); return absY(); }
   virtual class cl_cell8 &rmwind(void) { vc.rd++;vc.wr++;tick(1); return ind(); }
   virtual class cl_cell8 &rmwzind(void) { vc.rd++;vc.wr++;tick(1); return zind(); }
@@ -263,7 +267,7 @@ public:
   virtual int STAzx(t_mem code) { return sta(dstzpgX()); }
   virtual int STAay(t_mem code) { return sta(dstabsY()); }
   virtual int STAa (t_mem code) { return sta(dstabs()); }
-  virtual int STAax(t_mem code) { tick(1); return sta(dstabsX()); }
+  virtual int STAax(t_mem code) { return sta(dstabsX()); }
 
   virtual int lda(class cl_cell8 &op);
   virtual int LDAix(t_mem code) { return lda(indX()); }
diff --git a/src/sims/mos6502.src/mos65c02.cc b/src/sims/mos6502.src/mos65c02.cc
index d69a9c8..8af97b4 100644
--- a/src/sims/mos6502.src/mos65c02.cc
+++ b/src/sims/mos6502.src/mos65c02.cc
@@ -91,7 +91,7 @@ cl_mos65c02::accept_it(class it_level *il)
 {
   class cl_it_src *is= il->source;
 
-  tick(2);
+  tick(set_b?1:2); // one is counted at fetch of BRK
   push_addr(PC);
   rom->write(0x0100 + rSP, rF|0x20);
   if (set_b)
@@ -109,6 +109,9 @@ cl_mos65c02::accept_it(class it_level *il)
 
   rF|= flagI;
   is->clear();
+  if (is != src_nmi)
+    // flag I holds off requests, not the level in service
+    il->level= ((class it_level *)(it_levels->top()))->level;
   it_levels->push(il);
   
   return resGO;
@@ -131,6 +134,7 @@ cl_mos65c02::BIT8(t_mem code)
   u8_t f= rF & ~(flagZ);
   if (!(rA & v)) f|= flagZ;
   cF.W(f);
+  tick(1);
   return resGO;
 }
 
@@ -158,6 +162,31 @@ cl_mos65c02::INA(t_mem code)
   return resGO;
 }
 
+int
+cl_mos65c02::JMPi(t_mem code)
+{
+  PC= read_addr(rom, i16());
+  vc.rd+= 2;
+  tick(5);
+  return resGO;
+}
+
+int
+cl_mos65c02::adc(class cl_cell8 &op)
+{
+  if (rF & flagD)
+    tick(1);
+  return cl_mos6502::adc(op);
+}
+
+int
+cl_mos65c02::sbc(class cl_cell8 &op)
+{
+  if (rF & flagD)
+    tick(1);
+  return cl_mos6502::sbc(op);
+}
+
 int
 cl_mos65c02::JMP7c(t_mem code)
 {
@@ -178,7 +207,6 @@ cl_mos65c02::tsb(class cl_cell8 &op)
   if (!r1) f|= flagZ;
   op.W(r2);
   cF.W(f);
-  tick(2);
   return resGO;
 }
 
@@ -191,7 +219,6 @@ cl_mos65c02::trb(class cl_cell8 &op)
   if (!r1) f|= flagZ;
   op.W(r2);
   cF.W(f);
-  tick(2);
   return resGO;
 }
 
diff --git a/src/sims/mos6502.src/mos65c02cl.h b/src/sims/mos6502.src/mos65c02cl.h
index 0bc4a98..62eb2b9 100644
--- a/src/sims/mos6502.src/mos65c02cl.h
+++ b/src/sims/mos6502.src/mos65c02cl.h
@@ -98,6 +98,13 @@ class cl_mos65c02: public cl_mos6502
   virtual int TRBa(t_mem code) { return trb(rmwabs()); }
   virtual int BITax(t_mem code) { return bit(absX()); }
   virtual int JMP7c(t_mem code);
+  virtual int JMPi(t_mem code);
+  virtual int adc(class cl_cell8 &op);
+  virtual int sbc(class cl_cell8 &op);
+  // page crossing counts in shifts only
+  virtual class cl_cell8 &rmwabsX(void) { vc.rd++;vc.wr++;tick(2); return absX(); }
+  virtual int INCax(t_mem code) { vc.rd++;vc.wr++;tick(2); return inc(wrabsX()); }
+  virtual int DECax(t_mem code) { vc.rd++;vc.wr++;tick(2); return dec(wrabsX()); }
   virtual int NOP5c(t_mem code) { return nopft(2,7); }
   virtual int NOPdc(t_mem code) { return nopft(2,3); }
   virtual int NOPfc(t_mem code) { return nopft(2,3); }
diff --git a/src/sims/mos6502.src/mos65c02s.cc b/src/sims/mos6502.src/mos65c02s.cc
index c1693dc..9090372 100644
--- a/src/sims/mos6502.src/mos65c02s.cc
+++ b/src/sims/mos6502.src/mos65c02s.cc
@@ -117,14 +117,8 @@ cl_mos65c02s::bbr(t_mem code, class cl_cell8 &op)
 {
   u8_t v= op.R();
   u8_t mask= 1<<((code>>4)&0x7);
-  i8_t offset= fetch();
-  if (!(v&mask))
-    {
-      PC+= offset;
-      PC&= 0xffff;
-    }
-  tick(2);
-  return resGO;
+  tick(1);
+  return branch(!(v&mask));
 }
 
 int
@@ -132,14 +126,8 @@ cl_mos65c02s::bbs(t_mem code, class cl_cell8 &op)
 {
   u8_t v= op.R();
   u8_t mask= 1<<((code>>4)&0x7);
-  i8_t offset= fetch();
-  if (v&mask)
-    {
-      PC+= offset;
-      PC&= 0xffff;
-    }
-  tick(2);
-  return resGO;
+  tick(1);
+  return branch(v&mask);
 }
 
 
-- 
2.43.0


From ec3340ae2e2bff50cdf849c1520fc38e22436af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:11 +0000
Subject: [PATCH 095/119] fix: i8085: parity stored in the carry flag, carry
 and auxiliary carry of ADC, SBB, SUB, ANA and DAA, RST vectors, words at the
 end of memory, clock counts of conditional jumps, XCHG and MOV A,H

---
 src/sims/i8085.src/glob.cc    | 42 ++++++++++++++---------------
 src/sims/i8085.src/i8080.cc   |  2 +-
 src/sims/i8085.src/i8080cl.h  |  1 +
 src/sims/i8085.src/i8085cl.h  |  1 +
 src/sims/i8085.src/ialu.cc    | 51 +++++++++++------------------------
 src/sims/i8085.src/ibranch.cc |  2 +-
 src/sims/i8085.src/imove.cc   | 12 +++++----
 7 files changed, 48 insertions(+), 63 deletions(-)

diff --git a/src/sims/i8085.src/glob.cc b/src/sims/i8085.src/glob.cc
index 5ed5426..bde4fd8 100644
--- a/src/sims/i8085.src/glob.cc
+++ b/src/sims/i8085.src/glob.cc
@@ -162,22 +162,22 @@ struct dis_entry disass_8085[]=
 
 /* 1 values will be replaced by flagP before start */
 u8_t ptab[256]= {
-  1, 0, 0, 1, 0, 1, 1, 0, 0, 1, 1, 0, 1, 0, 0, 1,
-  0, 1, 1, 0, 1, 0, 0, 1, 1, 0, 0, 1, 0, 1, 1, 0,
-  0, 1, 1, 0, 1, 0, 0, 1, 1, 0, 0, 1, 0, 1, 1, 0,
-  1, 0, 0, 1, 0, 1, 1, 0, 0, 1, 1, 0, 1, 0, 0, 1,
-  0, 1, 1, 0, 1, 0, 0, 1, 1, 0, 0, 1, 0, 1, 1, 0,
-  1, 0, 0, 1, 0, 1, 1, 0, 0, 1, 1, 0, 1, 0, 0, 1,
-  1, 0, 0, 1, 0, 1, 1, 0, 0, 1, 1, 0, 1, 0, 0, 1,
-  0, 1, 1, 0, 1, 0, 0, 1, 1, 0, 0, 1, 0, 1, 1, 0,
-  0, 1, 1, 0, 1, 0, 0, 1, 1, 0, 0, 1, 0, 1, 1, 0,
-  1, 0, 0, 1, 0, 1, 1, 0, 0, 1, 1, 0, 1, 0, 0, 1,
-  1, 0, 0, 1, 0, 1, 1, 0, 0, 1, 1, 0, 1, 0, 0, 1,
-  0, 1, 1, 0, 1, 0, 0, 1, 1, 0, 0, 1, 0, 1, 1, 0,
-  1, 0, 0, 1, 0, 1, 1, 0, 0, 1, 1, 0, 1, 0, 0, 1,
-  0, 1, 1, 0, 1, 0, 0, 1, 1, 0, 0, 1, 0, 1, 1, 0,
-  0, 1, 1, 0, 1, 0, 0, 1, 1, 0, 0, 1, 0, 1, 1, 0,
-  1, 0, 0, 1, 0, 1, 1, 0, 0, 1, 1, 0, 1, 0, 0, 1
+  4, 0, 0, 4, 0, 4, 4, 0, 0, 4, 4, 0, 4, 0, 0, 4,
+  0, 4, 4, 0, 4, 0, 0, 4, 4, 0, 0, 4, 0, 4, 4, 0,
+  0, 4, 4, 0, 4, 0, 0, 4, 4, 0, 0, 4, 0, 4, 4, 0,
+  4, 0, 0, 4, 0, 4, 4, 0, 0, 4, 4, 0, 4, 0, 0, 4,
+  0, 4, 4, 0, 4, 0, 0, 4, 4, 0, 0, 4, 0, 4, 4, 0,
+  4, 0, 0, 4, 0, 4, 4, 0, 0, 4, 4, 0, 4, 0, 0, 4,
+  4, 0, 0, 4, 0, 4, 4, 0, 0, 4, 4, 0, 4, 0, 0, 4,
+  0, 4, 4, 0, 4, 0, 0, 4, 4, 0, 0, 4, 0, 4, 4, 0,
+  0, 4, 4, 0, 4, 0, 0, 4, 4, 0, 0, 4, 0, 4, 4, 0,
+  4, 0, 0, 4, 0, 4, 4, 0, 0, 4, 4, 0, 4, 0, 0, 4,
+  4, 0, 0, 4, 0, 4, 4, 0, 0, 4, 4, 0, 4, 0, 0, 4,
+  0, 4, 4, 0, 4, 0, 0, 4, 4, 0, 0, 4, 0, 4, 4, 0,
+  4, 0, 0, 4, 0, 4, 4, 0, 0, 4, 4, 0, 4, 0, 0, 4,
+  0, 4, 4, 0, 4, 0, 0, 4, 4, 0, 0, 4, 0, 4, 4, 0,
+  0, 4, 4, 0, 4, 0, 0, 4, 4, 0, 0, 4, 0, 4, 4, 0,
+  4, 0, 0, 4, 0, 4, 4, 0, 0, 4, 4, 0, 4, 0, 0, 4
 };
 
 u16_t tick_tab_8080[256]= {
@@ -194,10 +194,10 @@ u16_t tick_tab_8080[256]= {
   /* 9_ */    0x04, 0x04, 0x04, 0x04,   0x04, 0x04, 0x07, 0x04,   0x04, 0x04, 0x04, 0x04,   0x04, 0x04, 0x07, 0x04, 
   /* a_ */    0x04, 0x04, 0x04, 0x04,   0x04, 0x04, 0x07, 0x04,   0x04, 0x04, 0x04, 0x04,   0x04, 0x04, 0x07, 0x04, 
   /* b_ */    0x04, 0x04, 0x04, 0x04,   0x04, 0x04, 0x07, 0x04,   0x04, 0x04, 0x04, 0x04,   0x04, 0x04, 0x07, 0x04, 
-  /* c_ */  0x0b05, 0x0a, 0x0a, 0x0a, 0x110b, 0x0b, 0x07, 0x0b, 0x0b05, 0x0a, 0x0a, 0x0a, 0x110b, 0x11, 0x07, 0x0b, 
-  /* d_ */  0x0b05, 0x0a, 0x0a, 0x0a, 0x110b, 0x0b, 0x07, 0x0b, 0x0b05, 0x0a, 0x0a, 0x0a, 0x110b, 0x11, 0x07, 0x0b, 
-  /* e_ */  0x0b05, 0x0a, 0x0a, 0x12, 0x110b, 0x0b, 0x07, 0x0b, 0x0b05, 0x05, 0x0a, 0x05, 0x110b, 0x11, 0x07, 0x0b, 
-  /* f_ */  0x0b05, 0x0a, 0x0a, 0x04, 0x110b, 0x0b, 0x07, 0x0b, 0x0b05, 0x05, 0x0a, 0x04, 0x110b, 0x11, 0x07, 0x0b
+  /* c_ */ 0x0b05, 0x0a, 0x0a0a, 0x0a,   0x110b, 0x0b, 0x07, 0x0b,   0x0b05, 0x0a, 0x0a0a, 0x0a,   0x110b, 0x11, 0x07, 0x0b,
+  /* d_ */ 0x0b05, 0x0a, 0x0a0a, 0x0a,   0x110b, 0x0b, 0x07, 0x0b,   0x0b05, 0x0a, 0x0a0a, 0x0a,   0x110b, 0x11, 0x07, 0x0b,
+  /* e_ */ 0x0b05, 0x0a, 0x0a0a, 0x12,   0x110b, 0x0b, 0x07, 0x0b,   0x0b05, 0x05, 0x0a0a, 0x04,   0x110b, 0x11, 0x07, 0x0b,
+  /* f_ */ 0x0b05, 0x0a, 0x0a0a, 0x04,   0x110b, 0x0b, 0x07, 0x0b,   0x0b05, 0x05, 0x0a0a, 0x04,   0x110b, 0x11, 0x07, 0x0b
 };
 
 u16_t tick_tab_8085[256]= {
@@ -209,7 +209,7 @@ u16_t tick_tab_8085[256]= {
   /* 4_ */    0x04, 0x04,   0x04, 0x04,   0x04, 0x04, 0x07, 0x04,   0x04, 0x04,   0x04,   0x04,   0x04,   0x04, 0x07, 0x04, 
   /* 5_ */    0x04, 0x04,   0x04, 0x04,   0x04, 0x04, 0x07, 0x04,   0x04, 0x04,   0x04,   0x04,   0x04,   0x04, 0x07, 0x04, 
   /* 6_ */    0x04, 0x04,   0x04, 0x04,   0x04, 0x04, 0x07, 0x04,   0x04, 0x04,   0x04,   0x04,   0x04,   0x04, 0x07, 0x04, 
-  /* 7_ */    0x07, 0x07,   0x07, 0x07,   0x07, 0x07, 0x05, 0x07,   0x04, 0x04,   0x04,   0x04,   0x05,   0x04, 0x07, 0x04, 
+  /* 7_ */    0x07, 0x07,   0x07, 0x07,   0x07, 0x07, 0x05, 0x07,   0x04, 0x04,   0x04,   0x04,   0x04,   0x04, 0x07, 0x04, 
   /* 8_ */    0x04, 0x04,   0x04, 0x04,   0x04, 0x04, 0x07, 0x04,   0x04, 0x04,   0x04,   0x04,   0x04,   0x04, 0x07, 0x04, 
   /* 9_ */    0x04, 0x04,   0x04, 0x04,   0x04, 0x04, 0x07, 0x04,   0x04, 0x04,   0x04,   0x04,   0x04,   0x04, 0x07, 0x04, 
   /* a_ */    0x04, 0x04,   0x04, 0x04,   0x04, 0x04, 0x07, 0x04,   0x04, 0x04,   0x04,   0x04,   0x04,   0x04, 0x07, 0x04, 
diff --git a/src/sims/i8085.src/i8080.cc b/src/sims/i8085.src/i8080.cc
index 0a6ae74..15244fb 100644
--- a/src/sims/i8085.src/i8080.cc
+++ b/src/sims/i8085.src/i8080.cc
@@ -240,7 +240,7 @@ const char *srp_names[4]= {
 void
 cl_i8080::dis_M(chars *comment)
 {
-  u8_t m= rM;
+  u8_t m= rom->get(rHL);
   if (comment->empty())
     *comment= "; ";
   comment->appendf("[0x%04x]= 0x%02x", rHL, m);
diff --git a/src/sims/i8085.src/i8080cl.h b/src/sims/i8085.src/i8080cl.h
index d6335d1..4b6a7ba 100644
--- a/src/sims/i8085.src/i8080cl.h
+++ b/src/sims/i8085.src/i8080cl.h
@@ -207,6 +207,7 @@ public:
   // Arithmetic
   virtual int add8(u8_t op, bool add_c, bool is_daa= false);
   virtual int sub8(u8_t op, bool sub_c, bool cmp);
+  virtual bool and_sets_ac(u8_t op) { return ((rA | op) & 8) != 0; }
   virtual int ana(u8_t op);
   virtual int ora(u8_t op);
   virtual int xra(u8_t op);
diff --git a/src/sims/i8085.src/i8085cl.h b/src/sims/i8085.src/i8085cl.h
index 0e29e38..e3a4bc3 100644
--- a/src/sims/i8085.src/i8085cl.h
+++ b/src/sims/i8085.src/i8085cl.h
@@ -86,6 +86,7 @@ class cl_i8085: public cl_i8080
   virtual void print_regs(class cl_console_base *con);
 
   virtual u16_t *tick_tab(void) { return tick_tab_8085; }
+  virtual bool and_sets_ac(u8_t op) { return true; }
 
   virtual int inx(class cl_memory_cell &op);
   virtual int dcx(class cl_memory_cell &op);
diff --git a/src/sims/i8085.src/ialu.cc b/src/sims/i8085.src/ialu.cc
index 80a87f0..e1667eb 100644
--- a/src/sims/i8085.src/ialu.cc
+++ b/src/sims/i8085.src/ialu.cc
@@ -31,18 +31,18 @@ int
 cl_i8080::add8(u8_t op, bool add_c, bool is_daa)
 {
   u16_t res;
-  if (add_c && (rF & flagC))
-    op++;
-  res= rA+op;
-  rF&= ~fAll_A;
-  if (!is_daa) rF&= ~flagA;
+  u8_t c= (add_c && (rF & flagC))?1:0;
+  u8_t oldc= rF & flagC;
+  res= rA+op+c;
+  rF&= ~fAll;
+  // DAA can set carry but never clears it
+  if (is_daa) rF|= oldc;
   if (res>0xff) rF|= flagC;
   if (res&0x80) rF|= flagS;
   res&= 0xff;
   if (!res) rF|= flagZ;
-  if (!is_daa)
-    if ((rA&0xf)+(op&0xf) > 0xf)
-      rF|= flagA;
+  if ((rA&0xf)+(op&0xf)+c > 0xf)
+    rF|= flagA;
   rF|= ADDV8(rA,op,res);
   rF|= X5(res);
   rF|= ptab[res];
@@ -54,17 +54,15 @@ cl_i8080::add8(u8_t op, bool add_c, bool is_daa)
 int
 cl_i8080::sub8(u8_t op, bool sub_c, bool cmp)
 {
-  u16_t orga= rA, orgb= op;
-  if (sub_c && (rF & flagC))
-    op++;
-  op= ~op+1;
-  u16_t res= rA+op;
+  u8_t c= (sub_c && (rF & flagC))?0:1;
+  op= ~op;
+  u16_t res= rA+op+c;
   rF&= ~fAll;
-  if (/*res<=0xff*/orga<orgb) rF|= flagC;
+  if (res<=0xff) rF|= flagC;
   if (res&0x80) rF|= flagS;
   res&= 0xff;
   if (!res) rF|= flagZ;
-  if ((rA&0xf)+(op&0xf) > 0xf) rF|= flagA;
+  if ((rA&0xf)+(op&0xf)+c > 0xf) rF|= flagA;
   rF|= ADDV8(rA,op,res);
   rF|= X5(res);
   rF|= ptab[res];
@@ -143,7 +141,7 @@ cl_i8080::ana(u8_t op)
 {
   u8_t res= rA & op;
   rF&= ~fAll;
-  rF|= flagA;
+  if (and_sets_ac(op)) rF|= flagA;
   if (!res) rF|= flagZ;
   if (res&0x80) rF|= flagS;
   rF|= X5(res);
@@ -247,26 +245,9 @@ cl_i8080::DAA(t_mem code)
   u8_t corr= 0;
   if (((rA & 0xf) > 9) || (rF & flagA))
     corr= 6;
-  u8_t v= rA>>4, c= 10;
-  if (corr==6)
-    c= 9;
-  if ((v >= c) || (rF & flagC))
+  if ((rA > 0x99) || (rF & flagC))
     corr|= 0x60;
-  if (corr)
-    {
-      /*u8_t org= rA;
-      rF&= ~(flagS|flagZ|flagV|flagP|flagK);
-      rA+= corr;
-      if (rA&0x80) rF|= flagS;
-      if (!rA) rF|= flagZ;
-      rF|= ADDV8(org, corr, rA);
-      rF|= X5(rA);
-      rF|= ptab[rA];
-      cF.W(rF);
-      cA.W(rA);*/
-      add8(corr, false, true);
-    }
-  return resGO;
+  return add8(corr, false, true);
 }
 
 int
diff --git a/src/sims/i8085.src/ibranch.cc b/src/sims/i8085.src/ibranch.cc
index 2e9cef4..aadf8b2 100644
--- a/src/sims/i8085.src/ibranch.cc
+++ b/src/sims/i8085.src/ibranch.cc
@@ -98,7 +98,7 @@ cl_i8080::PCHL(t_mem code)
 int
 cl_i8080::rst(t_mem code)
 {
-  u16_t a= code & 0x28;
+  u16_t a= code & 0x38;
   push2(PC);
   PC= a;
   return resGO;
diff --git a/src/sims/i8085.src/imove.cc b/src/sims/i8085.src/imove.cc
index a9bb054..b933ebc 100644
--- a/src/sims/i8085.src/imove.cc
+++ b/src/sims/i8085.src/imove.cc
@@ -62,7 +62,8 @@ cl_i8080::STA_a16(t_mem code)
 int
 cl_i8080::LHLD_a16(t_mem code)
 {
-  cHL.W(read_addr(rom, fetch16()));
+  u16_t a= fetch16(), a1= a+1;
+  cHL.W(rom->read(a) + 256*rom->read(a1));
   vc.rd+= 2;
   return resGO;
 }
@@ -70,9 +71,9 @@ cl_i8080::LHLD_a16(t_mem code)
 int
 cl_i8080::SHLD_a16(t_mem code)
 {
-  u16_t a= fetch16();
+  u16_t a= fetch16(), a1= a+1;
   rom->write(a, rL);
-  rom->write(a+1, rH);
+  rom->write(a1, rH);
   vc.wr+= 2;
   return resGO;
 }
@@ -121,10 +122,11 @@ cl_i8080::OUT_INST(t_mem code)
 int
 cl_i8080::XTHL(t_mem code)
 {
-  u16_t temp= read_addr(rom, rSP);
+  u16_t a1= rSP+1;
+  u16_t temp= rom->read(rSP) + 256*rom->read(a1);
   vc.rd+= 2;
   rom->write(rSP, rL);
-  rom->write(rSP+1, rH);
+  rom->write(a1, rH);
   vc.wr+= 2;
   cHL.W(temp);
   return resGO;
-- 
2.43.0


From 8fd7c068f12da849952109c799aa6201d6cddd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:13 +0000
Subject: [PATCH 096/119] fix: m6800: wrap 16 bit accesses and indexed jump at
 the end of memory

---
 src/core/motorola.src/ibranch68.cc | 2 +-
 src/core/motorola.src/imove68.cc   | 2 +-
 src/core/motorola.src/m6800.cc     | 4 ++--
 src/core/motorola.src/m6801.cc     | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/core/motorola.src/ibranch68.cc b/src/core/motorola.src/ibranch68.cc
index f502866..8f28c26 100644
--- a/src/core/motorola.src/ibranch68.cc
+++ b/src/core/motorola.src/ibranch68.cc
@@ -66,7 +66,7 @@ cl_m6800::JMPi(t_mem code)
 {
   t_addr a= fetch();
   a+= rX;
-  PC= a;
+  PC= a&0xffff;
   return resGO;
 }
 
diff --git a/src/core/motorola.src/imove68.cc b/src/core/motorola.src/imove68.cc
index 8d01847..ec9a8f6 100644
--- a/src/core/motorola.src/imove68.cc
+++ b/src/core/motorola.src/imove68.cc
@@ -75,7 +75,7 @@ cl_m6800::stsx(t_addr a, u16_t op)
 {
   u8_t f= rF & ~(flagN|flagV|flagC);
   rom->write(a, op>>8);
-  rom->write(a+1, op&0xff);
+  rom->write((a+1)&0xffff, op&0xff);
   vc.wr+= 2;
   if (!op) f|= flagZ;
   if (op&0x8000) f|= flagN;
diff --git a/src/core/motorola.src/m6800.cc b/src/core/motorola.src/m6800.cc
index 5c63d01..a74cfe9 100644
--- a/src/core/motorola.src/m6800.cc
+++ b/src/core/motorola.src/m6800.cc
@@ -471,7 +471,7 @@ cl_m6800::read_addr(class cl_memory *m, t_addr start_addr)
 {
   u8_t h, l;
   h= m->read(start_addr);
-  l= m->read(start_addr+1);
+  l= m->read((start_addr+1)&0xffff);
   return h*256 + l;
 }
 
@@ -480,7 +480,7 @@ cl_m6800::get_addr(class cl_memory *m, t_addr start_addr)
 {
   u8_t h, l;
   h= m->get(start_addr);
-  l= m->get(start_addr+1);
+  l= m->get((start_addr+1)&0xffff);
   return h*256 + l;
 }
 
diff --git a/src/core/motorola.src/m6801.cc b/src/core/motorola.src/m6801.cc
index 076102a..424c5d2 100644
--- a/src/core/motorola.src/m6801.cc
+++ b/src/core/motorola.src/m6801.cc
@@ -210,7 +210,7 @@ cl_m6801::std(t_addr addr)
     rF|= flagZ;
   cCC.W(rF);
   rom->write(addr, rA);
-  rom->write(addr+1, rB);
+  rom->write((addr+1)&0xffff, rB);
   vc.wr+= 2;
   return resGO;
 }
-- 
2.43.0


From 9f1f9ca21c64fe31e9d902b3131735d840307845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:13 +0000
Subject: [PATCH 097/119] fix: m6800: loads and stores set Z by the value and
 keep C

---
 src/core/motorola.src/imove68.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/motorola.src/imove68.cc b/src/core/motorola.src/imove68.cc
index ec9a8f6..ad0f409 100644
--- a/src/core/motorola.src/imove68.cc
+++ b/src/core/motorola.src/imove68.cc
@@ -40,7 +40,7 @@ cl_m6800::clr(class cl_memory_cell &dest)
 int
 cl_m6800::lda(class cl_memory_cell &dest, u8_t op)
 {
-  u8_t f= rF & ~(flagN|flagV|flagC);
+  u8_t f= rF & ~(flagN|flagZ|flagV);
   dest.W(op);
   if (!op) f|= flagZ;
   if (op&0x80) f|= flagN;
@@ -51,7 +51,7 @@ cl_m6800::lda(class cl_memory_cell &dest, u8_t op)
 int
 cl_m6800::sta(class cl_memory_cell &dest, u8_t op)
 {
-  u8_t f= rF & ~(flagN|flagV|flagC);
+  u8_t f= rF & ~(flagN|flagZ|flagV);
   dest.W(op);
   if (!op) f|= flagZ;
   if (op&0x80) f|= flagN;
@@ -62,7 +62,7 @@ cl_m6800::sta(class cl_memory_cell &dest, u8_t op)
 int
 cl_m6800::ldsx(class cl_cell16 &dest, u16_t op)
 {
-  u8_t f= rF & ~(flagN|flagV|flagC);
+  u8_t f= rF & ~(flagN|flagZ|flagV);
   dest.W(op);
   if (!op) f|= flagZ;
   if (op&0x8000) f|= flagN;
@@ -73,7 +73,7 @@ cl_m6800::ldsx(class cl_cell16 &dest, u16_t op)
 int
 cl_m6800::stsx(t_addr a, u16_t op)
 {
-  u8_t f= rF & ~(flagN|flagV|flagC);
+  u8_t f= rF & ~(flagN|flagZ|flagV);
   rom->write(a, op>>8);
   rom->write((a+1)&0xffff, op&0xff);
   vc.wr+= 2;
-- 
2.43.0


From e1718f1c938449d4a5becb1eee3a6e8b1eb083ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:13 +0000
Subject: [PATCH 098/119] fix: m6800: half carry of ADC, flags of CPX, 16 bit
 flags and stack wrap of the 6801

---
 src/core/motorola.src/ialu68.cc | 15 ++++-----------
 src/core/motorola.src/m6801.cc  | 23 +++++++----------------
 2 files changed, 11 insertions(+), 27 deletions(-)

diff --git a/src/core/motorola.src/ialu68.cc b/src/core/motorola.src/ialu68.cc
index 5875a64..4bdc9ea 100644
--- a/src/core/motorola.src/ialu68.cc
+++ b/src/core/motorola.src/ialu68.cc
@@ -90,7 +90,7 @@ cl_m6800::add(class cl_memory_cell &dest, u8_t op, bool c)
   a7= a&0x80; na7= a7^0x80;
   b7= b&0x80; nb7= b7^0x80;
   r7= r&0x80; nr7= r7^0x80;
-  if ((a&0xf) + (b&0xf) > 0xf) f|= flagH;
+  if ((a&0xf) + (b&0xf) + ((c && orgc)?1:0) > 0xf) f|= flagH;
   if (r7) f|= flagN;
   if (!r) f|= flagZ;
   if ((a7&b7&nr7) | (na7&nb7&r7)) f|= flagV;
@@ -307,18 +307,11 @@ cl_m6800::Or(class cl_memory_cell &dest, u8_t op)
 int
 cl_m6800::cpx(u16_t op)
 {
-  u32_t r;
-  u16_t x= rX, r2;
+  u16_t x= rX, r= x-op;
   u8_t f= rF & ~(flagN|flagZ|flagV);
-  op= ~op+1;
-  r= x+op;
-  r2= (x&0x7fff) + (op&0x7fff);
   if (r&0x8000) f|= flagN;
-  if (!(r&0xffff)) f|= flagZ;
-  r &= ~0xffff;
-  r2&= ~0x7fff;
-  if ((r && !r2) ||
-      (!r && r2)) f|= flagV;
+  if (!r) f|= flagZ;
+  if ((x^op) & (x^r) & 0x8000) f|= flagV;
   cCC.W(f);
   return resGO;
 }
diff --git a/src/core/motorola.src/m6801.cc b/src/core/motorola.src/m6801.cc
index 424c5d2..6c1ef8a 100644
--- a/src/core/motorola.src/m6801.cc
+++ b/src/core/motorola.src/m6801.cc
@@ -128,7 +128,7 @@ cl_m6801::add16(class cl_memory_cell &dest, u16_t op)
 {
   u8_t f= rF & ~(flagN|flagZ|flagV|flagC);
   u16_t a= dest.read(), b= op, r;
-  u8_t a15, b15, r15, na15, nb15, nr15;
+  u16_t a15, b15, r15, na15, nb15, nr15;
   r= a+b;
   a15= a&0x8000; na15= a15^0x8000;
   b15= b&0x8000; nb15= b15^0x8000;
@@ -149,7 +149,7 @@ cl_m6801::sub16(class cl_memory_cell &dest, u16_t op)
   u8_t orgc= rF&flagC;
   u8_t f= rF & ~(flagN|flagZ|flagV|flagC);
   u16_t a= dest.read(), b= op, r;
-  u8_t a15, b15, r15, na15, nb15, nr15;
+  u16_t a15, b15, r15, na15, nb15, nr15;
   r= a-b;
   a15= a&0x8000; na15= a15^0x8000;
   b15= b&0x8000; nb15= b15^0x8000;
@@ -167,18 +167,9 @@ cl_m6801::sub16(class cl_memory_cell &dest, u16_t op)
 int
 cl_m6801::cpx(u16_t op)
 {
-  u32_t r;
-  u16_t x= rX, r2;
-  u8_t f= rF & ~(flagN|flagZ|flagV|flagC);
-  op= ~op+1;
-  r= x+op;
-  r2= (x&0x7fff) + (op&0x7fff);
-  if (r&0x8000) f|= flagN;
-  if (!(r&0xffff)) f|= flagZ;
-  r &= ~0xffff;
-  r2&= ~0x7fff;
-  if ((r && !r2) ||
-      (!r && r2)) f|= flagV;
+  u16_t x= rX;
+  cl_m6800::cpx(op);
+  u8_t f= rF & ~flagC;
   if (op > x)
     f|= flagC;
   cCC.W(f);
@@ -220,7 +211,7 @@ int
 cl_m6801::PSHX(t_mem code)
 {
   rom->write(rSP  , rIX);
-  rom->write(rSP-1, rIX>>8);
+  rom->write((rSP-1)&0xffff, rIX>>8);
   cSP.W(rSP-2);
   vc.wr+= 2;
   return resGO;
@@ -230,7 +221,7 @@ cl_m6801::PSHX(t_mem code)
 int
 cl_m6801::PULX(t_mem code)
 {
-  rIX= rom->read(rSP+1) * 256 + rom->read(rSP+2);
+  rIX= rom->read((rSP+1)&0xffff) * 256 + rom->read((rSP+2)&0xffff);
   cIX.W(rIX);
   cSP.W(rSP+2);
   vc.rd+= 2;
-- 
2.43.0


From b7c8a63c382153af032715ddcbeca53334f9bab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:20 +0000
Subject: [PATCH 099/119] fix: m6800: SWI never executed, only the first
 interrupt served, NMI left I clear, RTI left unused flag bits

---
 src/core/motorola.src/inst68.cc |  5 +++++
 src/core/motorola.src/irq68.cc  |  1 +
 src/core/motorola.src/m6800.cc  | 11 ++++++-----
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/core/motorola.src/inst68.cc b/src/core/motorola.src/inst68.cc
index dd1732b..36ee40d 100644
--- a/src/core/motorola.src/inst68.cc
+++ b/src/core/motorola.src/inst68.cc
@@ -36,6 +36,11 @@ int
 cl_m6800::RTI(t_mem code)
 {
   pull_regs(true);
+  if (it_levels->count > 1)
+    {
+      class it_level *il= (class it_level *)(it_levels->pop());
+      delete il;
+    }
   return resGO;
 }
 
diff --git a/src/core/motorola.src/irq68.cc b/src/core/motorola.src/irq68.cc
index 96462e7..3421137 100644
--- a/src/core/motorola.src/irq68.cc
+++ b/src/core/motorola.src/irq68.cc
@@ -47,6 +47,7 @@ cl_irq_hw::init()
 
   cl_hw::init();
   cfg_set(m68_nmi_en, 1);
+  cfg_set(m68_swi_en, 1);
 
   return 0;
 }
diff --git a/src/core/motorola.src/m6800.cc b/src/core/motorola.src/m6800.cc
index a74cfe9..0f200db 100644
--- a/src/core/motorola.src/m6800.cc
+++ b/src/core/motorola.src/m6800.cc
@@ -528,17 +528,18 @@ cl_m6800::accept_it(class it_level *il)
   class cl_it_src *is= il->source;
 
   if (!wai)
-      push_regs(false);
+    // ticks of SWI are counted by the instruction
+    push_regs(is == src_swi);
   wai= false;
   
-  if ((is == src_irq) ||
-      (is == src_swi))
-    rCC|= flagI;
+  rCC|= flagI;
   
   t_addr a= read_addr(rom, is->addr);
   PC= a;
   
   is->clear();
+  // flag I holds off requests, not the level in service
+  il->level= ((class it_level *)(it_levels->top()))->level;
   it_levels->push(il);
   
   return resGO;
@@ -562,7 +563,7 @@ void
 cl_m6800::pull_regs(bool inst_part)
 {
   u8_t l, h;
-  rCC= rom->read(++rSP);
+  cCC.W(rom->read(++rSP));
   rB= rom->read(++rSP);
   rA= rom->read(++rSP);
   h= rom->read(++rSP);
-- 
2.43.0


From f6edb96671ab6c9d409cc38d0e360feb8bb3fdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:18 +0000
Subject: [PATCH 100/119] fix: m68hc11: interrupt frame without IY, interrupt
 vectors, division, flag X, V of LDD, STD and BSET, C of CPX, ABY and JMP with
 Y, clock counts; m6800: I set by reset

---
 src/core/motorola.src/ibranch68.cc |  4 +-
 src/core/motorola.src/m6800.cc     |  2 +-
 src/core/motorola.src/m68hc11.cc   | 95 +++++++++++++++++++++++-------
 src/core/motorola.src/m68hc11cl.h  |  5 ++
 4 files changed, 81 insertions(+), 25 deletions(-)

diff --git a/src/core/motorola.src/ibranch68.cc b/src/core/motorola.src/ibranch68.cc
index 8f28c26..16404e2 100644
--- a/src/core/motorola.src/ibranch68.cc
+++ b/src/core/motorola.src/ibranch68.cc
@@ -64,9 +64,7 @@ cl_m6800::branch(t_addr a, bool cond)
 int
 cl_m6800::JMPi(t_mem code)
 {
-  t_addr a= fetch();
-  a+= rX;
-  PC= a&0xffff;
+  PC= iaddr();
   return resGO;
 }
 
diff --git a/src/core/motorola.src/m6800.cc b/src/core/motorola.src/m6800.cc
index 0f200db..187ceed 100644
--- a/src/core/motorola.src/m6800.cc
+++ b/src/core/motorola.src/m6800.cc
@@ -135,7 +135,7 @@ cl_m6800::reset(void)
 {
   cl_uc::reset();
 
-  cCC.W(0xc0);
+  cCC.W(0xc0|flagI);
   PC= read_addr(rom, RESET_AT);
   tick(6);
 }
diff --git a/src/core/motorola.src/m68hc11.cc b/src/core/motorola.src/m68hc11.cc
index 7332ab6..572fba6 100644
--- a/src/core/motorola.src/m68hc11.cc
+++ b/src/core/motorola.src/m68hc11.cc
@@ -45,10 +45,10 @@ instruction_wrapper_fn itab18[256];
 
 i8_t p0ticks11[256]= {
   /*      0  1  2  3  4  5  6  7  8  9  a  b  c  d  e  f  */
-  /* 0 */ 0, 2,40,40, 3, 3, 2, 2, 3, 3, 2, 2, 2, 2, 2, 2,
+  /* 0 */ 0, 2,41,41, 3, 3, 2, 2, 3, 3, 2, 2, 2, 2, 2, 2,
   /* 1 */ 2, 2, 6, 6, 6, 6, 2, 2, 0, 2, 0, 2, 7, 7, 7, 7,
   /* 2 */ 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3,
-  /* 3 */ 3, 3, 4, 4, 3, 3, 3, 3, 5, 5, 3,12, 4, 3,14,14,
+  /* 3 */ 3, 3, 4, 4, 3, 3, 3, 3, 5, 5, 3,12, 4,10,14,14,
   /* 4 */ 2, 0, 0, 2, 2, 0, 2, 2, 2, 2, 2, 0, 2, 2, 0, 2,
   /* 5 */ 2, 0, 0, 2, 2, 0, 2, 2, 2, 2, 2, 0, 2, 2, 0, 2,
   /* 6 */ 6, 0, 0, 6, 6, 0, 6, 6, 6, 6, 6, 0, 6, 6, 3, 6,
@@ -76,11 +76,11 @@ i8_t p18ticks11[256]= {
   /* 8 */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 5, 0, 0, 4,
   /* 9 */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 6, 0, 0, 0,
   /* a */ 5, 5, 5, 7, 5, 5, 5, 5, 5, 5, 5, 5, 7, 7, 6, 6,
-  /* b */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 7, 0, 0,
+  /* b */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 7, 0, 0, 0,
   /* c */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 4, 0,
   /* d */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 5, 5,
-  /* e */ 5, 5, 5, 7, 5, 5, 5, 5, 5, 5, 5, 5, 6, 6, 5, 6,
-  /* f */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 5, 6
+  /* e */ 5, 5, 5, 7, 5, 5, 5, 5, 5, 5, 5, 5, 6, 6, 6, 6,
+  /* f */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 6, 6
 };
 
 i8_t pcdticks11[256]= {
@@ -119,8 +119,8 @@ i8_t p1aticks11[256]= {
   /* b */ 0, 0, 0, 7, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
   /* c */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
   /* d */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-  /* e */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 6, 0,
-  /* f */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 6, 0
+  /* e */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 6, 6,
+  /* f */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0
 };
 
 
@@ -187,6 +187,9 @@ cl_m68hc11::cl_m68hc11(class cl_sim *asim):
   cl_m68hcbase(asim)
 {
   cCC.decode(&CC);
+  IRQ_AT	= 0xfff2;
+  NMI_AT	= 0xfff4;
+  SWI_AT	= 0xfff6;
 }
 
 
@@ -466,12 +469,60 @@ CL11::TEST(t_mem code)
 int
 CL11::STOP(t_mem code)
 {
-  if (!(rF & flagN))
+  if (!(rF & 0x80)) // flag S
     state= stIDLE;
   return resGO;
 }
 
 
+int
+CL11::TAP(t_mem code)
+{
+  // flag X can not be set by software
+  cCC.W(rA & (rCC | ~0x40));
+  return resGO;
+}
+
+
+void
+CL11::push_regs(bool inst_part)
+{
+  rom->write(rSP--, PC&0xff);
+  rom->write(rSP--, PC>>8);
+  rom->write(rSP--, rIY&0xff);
+  rom->write(rSP--, rIY>>8);
+  rom->write(rSP--, rIX&0xff);
+  rom->write(rSP--, rIX>>8);
+  rom->write(rSP--, rA);
+  rom->write(rSP--, rB);
+  rom->write(rSP--, rCC);
+  if (!inst_part)
+    tick(7);
+}
+
+
+void
+CL11::pull_regs(bool inst_part)
+{
+  u8_t l, h;
+  // flag X can not be set by software
+  cCC.W(rom->read(++rSP) & (rCC | ~0x40));
+  rB= rom->read(++rSP);
+  rA= rom->read(++rSP);
+  h= rom->read(++rSP);
+  l= rom->read(++rSP);
+  rIX= h*256+l;
+  h= rom->read(++rSP);
+  l= rom->read(++rSP);
+  rIY= h*256+l;
+  h= rom->read(++rSP);
+  l= rom->read(++rSP);
+  PC= h*256+l;
+  if (!inst_part)
+    tick(7);
+}
+
+
 /*
  * MOVE instructions
  */
@@ -479,7 +530,7 @@ CL11::STOP(t_mem code)
 int
 CL11::ldd16(u16_t op)
 {
-  u8_t f= rF & ~(flagN|flagZ);
+  u8_t f= rF & ~(flagN|flagZ|flagV);
   cD.W(op);
   if (!op) f|= flagZ;
   if (op & 0x8000) f|= flagN;
@@ -491,7 +542,7 @@ CL11::ldd16(u16_t op)
 int
 CL11::std16(t_addr addr)
 {
-  u8_t f= rF & ~(flagN|flagZ);
+  u8_t f= rF & ~(flagN|flagZ|flagV);
   rom->write(addr, rA);
   rom->write(u16_t(addr+1), rB);
   vc.wr+= 2;
@@ -598,7 +649,7 @@ CL11::bset(class cl_memory_cell &dest)
 {
   u8_t m= fetch();
   u8_t r= dest.R();
-  u8_t f= rF & ~(flagN|flagZ);
+  u8_t f= rF & ~(flagN|flagZ|flagV);
   r|= m;
   dest.W(r);
   if (!r) f|= flagZ;
@@ -641,18 +692,18 @@ CL11::cp16(class cl_cell16 &dest, u16_t op)
 int
 CL11::IDIV(t_mem code)
 {
-  u16_t q, r;
+  u16_t q;
   u8_t f= rF & ~(flagZ|flagV|flagC);
   if (rX == 0)
     {
-      q= 0xffff;
-      r= rX;
+      cX.W(q= 0xffff);
       f|= flagC;
     }
   else
     {
+      u16_t rem= rD%rX;
       cX.W(q= rD/rX);
-      cD.W(r= rD%rX);
+      cD.W(rem);
     }
   if (!q) f|= flagZ;
   cF.W(f);
@@ -663,20 +714,22 @@ CL11::IDIV(t_mem code)
 int
 CL11::FDIV(t_mem code)
 {
-  u32_t n= rD << 16;
-  u16_t q, r;
+  u32_t n= (u32_t)rD << 16;
+  u16_t q;
   u8_t f= rF & ~(flagZ|flagV|flagC);
   if( rX <= rD) f|= flagV;
   if (rX == 0)
     {
-      q= 0xffff;
-      r= rX;
+      cX.W(q= 0xffff);
       f|= flagC;
     }
+  else if (rX <= rD)
+    cX.W(q= 0xffff);
   else
     {
+      u16_t rem= n%rX;
       cX.W(q= n/rX);
-      cD.W(r= n%rX);
+      cD.W(rem);
     }
   if (!q) f|= flagZ;
   cF.W(f);
@@ -715,7 +768,7 @@ CL11::ASLD(t_mem code)
 int
 CL11::ABxy(t_mem code)
 {
-  cI->W(rX+rB);
+  cI->W(cI->get()+rB);
   return resGO;
 }
 
diff --git a/src/core/motorola.src/m68hc11cl.h b/src/core/motorola.src/m68hc11cl.h
index d0c1700..3963167 100644
--- a/src/core/motorola.src/m68hc11cl.h
+++ b/src/core/motorola.src/m68hc11cl.h
@@ -75,6 +75,9 @@ public:
   virtual int init(void);
   virtual const char *id_string(void);
   virtual void reset(void);
+  virtual void setup_ccr(void) {}
+  virtual void push_regs(bool inst_part);
+  virtual void pull_regs(bool inst_part);
 
   virtual double def_xtal(void) { return 8000000; }
   
@@ -94,12 +97,14 @@ public:
   virtual int bset(class cl_memory_cell &dest);
   virtual int bclr(class cl_memory_cell &dest);
   virtual int cp16(class cl_cell16 &dest, u16_t op);
+  virtual int cpx(u16_t op) { return cp16(cX, op); }
   
   // BRANCH
   virtual int brset(u8_t op);
   virtual int brclr(u8_t op);
   
   // hc11 specific insts on Page0 
+  virtual int TAP(t_mem code);
   virtual int TEST(t_mem code);
   virtual int IDIV(t_mem code);
   virtual int FDIV(t_mem code);
-- 
2.43.0


From cded0038ff0f943694b67ebdb75d9c4fdfeb01ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:07 +0000
Subject: [PATCH 101/119] fix: m6809: additions set E, F and I, half carry of
 ADC, V of ASL, Z of CLR, STY and STS swapped, SWI2 and SWI3 reported as
 invalid, addresses over 64k, frame and enabling of FIRQ, order of requests,
 NMI never armed, only the first interrupt served and its request never ended

---
 src/sims/m6809.src/m6809.cc  | 86 ++++++++++++++++++++++--------------
 src/sims/m6809.src/m6809cl.h |  2 +
 2 files changed, 56 insertions(+), 32 deletions(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index 3706cb8..90ab97b 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -144,7 +144,7 @@ cl_m6809::mk_hw_elements(void)
   add_hw(h= new cl_dreg(this, 0, "dreg"));
   h->init();
   
-  add_hw(h= new cl_m6809_irq(this));
+  add_hw(h= hw_irq= new cl_m6809_irq(this));
   h->init();
 
   src_irq= new cl_it_src(this,
@@ -152,10 +152,10 @@ cl_m6809::mk_hw_elements(void)
 			 regs8->get_cell(3), flagI,
 			 h->cfg_cell(cpu_irq), 1,
 			 IRQ_AT,
-			 false,
+			 true,
 			 true,
 			 "Interrupt request",
-			 0);
+			 2);
   src_irq->set_cid('i');
   src_irq->set_ie_value(0);
   src_irq->init();
@@ -166,11 +166,12 @@ cl_m6809::mk_hw_elements(void)
 			  regs8->get_cell(3), flagF,
 			  h->cfg_cell(cpu_firq), 1,
 			  FIRQ_AT,
-			  false,
+			  true,
 			  true,
 			  "Fast interrupt request",
-			  0);
+			  1);
   src_firq->set_cid('f');
+  src_firq->set_ie_value(0);
   src_firq->init();
   it_sources->add(src_firq);
   
@@ -179,7 +180,7 @@ cl_m6809::mk_hw_elements(void)
 			 h->cfg_cell(cpu_nmi_en), 1,
 			 h->cfg_cell(cpu_nmi), 1,
 			 NMI_AT,
-			 false,
+			 true,
 			 true,
 			 "Non-maskable interrupt request",
 			 0);
@@ -925,14 +926,14 @@ cl_m6809::index2ea(u8_t idx, t_addr *res_ea)
       if (ind && (idx & 0x10))
 	{
 	  u16_t a;
-	  a= rom->read(ea)*256 + rom->read(ea+1);
+	  a= rom->read(ea&0xffff)*256 + rom->read((ea+1)&0xffff);
 	  ea= a;
 	  tick(2);
 	}
     }
 
   if (res_ea)
-    *res_ea= ea;
+    *res_ea= ea & 0xffff;
   return resGO;
 }
 
@@ -955,9 +956,9 @@ cl_m6809::push_regs(bool do_cc)
       rom->write(--reg.S, B);
       rom->write(--reg.S, A);
       tick(9);
-      if (do_cc)
-	rom->write(--reg.S, reg.CC), tick(1);
     }
+  if (do_cc)
+    rom->write(--reg.S, reg.CC), tick(1);
 }
 
 void
@@ -1001,10 +1002,11 @@ cl_m6809::inst_add8(t_mem code, u8_t *acc, u8_t op, bool c, bool store, bool inv
   unsigned int o= op;
   signed int res= (signed char)d + (signed char)o;
 
+  u8_t h= (d & 0xf) + (o & 0xf) + (c?1:0);
   if (c) { ++res, ++o; }
   
-  reg.CC= (u8_t)(~(flagH|flagV|flagS|flagZ|flagC));
-  if ((d & 0xf) + (o & 0xf) > 0xf)  reg.CC|= flagH;
+  reg.CC&= (u8_t)(~(flagH|flagV|flagS|flagZ|flagC));
+  if (h > 0xf)                      reg.CC|= flagH;
   if ((res < -128) || (res > +127)) reg.CC|= flagV;
   if (d + o > 0xff)                 reg.CC|= flagC;
   if (invert_c)
@@ -1033,7 +1035,7 @@ cl_m6809::inst_add16(t_mem code, u16_t *acc, u16_t op, bool c,
     res++;
   r= res;
   
-  reg.CC= (u8_t)(~(flagV|flagS|flagZ|flagC));
+  reg.CC&= (u8_t)(~(flagV|flagS|flagZ|flagC));
   //if ((res < (int)(0x8000)) || (res > (int)(0x7fff)))
   if (is_sub)
     {
@@ -1059,7 +1061,7 @@ cl_m6809::inst_add16(t_mem code, u16_t *acc, u16_t op, bool c,
     {
       *acc= r;
       if (acc == &reg.S)
-	en_nmi= true;
+	arm_nmi();
     }
   
   return resGO;
@@ -1110,7 +1112,7 @@ cl_m6809::inst_ld16(t_mem code, u16_t *acc, u16_t op)
   SET_S(op&0x8000);
 
   if (acc == &reg.S)
-    en_nmi= true;
+    arm_nmi();
   
   return resGO;
 }
@@ -1133,7 +1135,7 @@ int
 cl_m6809::inst_st16(t_mem code, u16_t src, t_addr ea)
 {
   rom->write(ea  , (src)>>8);
-  rom->write(ea+1, (src)&0xff);
+  rom->write((ea+1)&0xffff, (src)&0xff);
   tick(2);
   vc.wr+= 2;
   
@@ -1226,7 +1228,7 @@ cl_m6809::inst_alu(t_mem code)
 	  }
 	else
 	  {
-	    op16= op8*256 + rom->read(ea+1);
+	    op16= op8*256 + rom->read((ea+1)&0xffff);
 	    tick(1);
 	    vc.rd++;
 	  }
@@ -1267,7 +1269,7 @@ cl_m6809::inst_alu(t_mem code)
 	}
       else
 	{
-	  op16= op8*256 + rom->read(ea+1);
+	  op16= op8*256 + rom->read((ea+1)&0xffff);
 	  tick(1);
 	  vc.rd++;
 	}
@@ -1309,7 +1311,7 @@ cl_m6809::inst_alu(t_mem code)
 	}
       else
 	{
-	  op16= op8*256 + rom->read(ea+1);
+	  op16= op8*256 + rom->read((ea+1)&0xffff);
 	  tick(1);
 	  vc.rd++;
 	}
@@ -1354,7 +1356,7 @@ cl_m6809::inst_10(t_mem code)
       {
 	u16_t u= fetch()*256 + fetch();
 	i16_t i= u;
-	PC= PC + i;
+	PC= (PC + i) & 0xffff;
 	tick(2);
 	break;
       }
@@ -1367,7 +1369,7 @@ cl_m6809::inst_10(t_mem code)
 	rom->write(--reg.S, (PC>>8)&0xff);
 	tick(2);
 	vc.wr+= 2;
-	PC= PC + i;
+	PC= (PC + i) & 0xffff;
 	break;
       }
     case 0x08: // --
@@ -1553,7 +1555,7 @@ cl_m6809::inst_branch(t_mem code, bool l)
     }
   if (t)
     {
-      PC= PC + i;
+      PC= (PC + i) & 0xffff;
       tick(1);
     }
       
@@ -1753,6 +1755,11 @@ cl_m6809::inst_30(t_mem code)
     case 0x0b: // RTI
       pull_regs(true);
       tick(1);
+      if (it_levels->count > 1)
+	{
+	  class it_level *il= (class it_level *)(it_levels->pop());
+	  delete il;
+	}
       break;
     case 0x0c: // CWAI
       op8= fetch();
@@ -1930,6 +1937,8 @@ cl_m6809::inst_asl(t_mem code, u8_t *acc, t_addr ea, u8_t op8)
   
   op8= (acc)?(*acc):(vc.rd++, tick(1), rom->read(ea));
   newc= op8 & 0x80;
+
+  SET_O( (op8&0x80) ^ ((op8<<1)&0x80) );
   
   op8<<= 1;
 
@@ -2039,7 +2048,7 @@ cl_m6809::inst_clr(t_mem code, u8_t *acc, t_addr ea, u8_t op8)
     rom->write(ea, 0), vc.wr++, tick(1);
   
   SET_O(0);
-  SET_Z(1);
+  SET_Z(0);
   SET_S(0);
   SET_C(0);
 
@@ -2179,6 +2188,7 @@ cl_m6809::inst_page1(t_mem code)
       tick(2);
       tick(1);
       vc.rd+= 2;
+      return resGO;
     }
   if ((code & 0x80) == 0)
     return resINV_INST;
@@ -2255,7 +2265,7 @@ cl_m6809::inst_page1(t_mem code)
     {
       op16= 0;
       if (rd)
-	op16= op8*256 + rom->read(ea+1), vc.rd++;
+	op16= op8*256 + rom->read((ea+1)&0xffff), vc.rd++;
       tick(1);
     }
   
@@ -2274,7 +2284,7 @@ cl_m6809::inst_page1(t_mem code)
 	  inst_ld16(code, &(reg.S), op16);
       break;
     case 0xf: // STY, STS
-      if (code & 0x40)
+      if ((code & 0x40) == 0)
 	inst_st16(code, reg.Y, ea);
       else
 	inst_st16(code, reg.S, ea);
@@ -2303,6 +2313,7 @@ cl_m6809::inst_page2(t_mem code)
       tick(2);
       tick(1);
       vc.rd+= 2;
+      return resGO;
     }
   if ((code!=0x83)&&(code!=0x8c)&&
       (code!=0x93)&&(code!=0x9c)&&
@@ -2352,7 +2363,7 @@ cl_m6809::inst_page2(t_mem code)
     }
   else
     {
-      op16= op8*256 + rom->read(ea+1);
+      op16= op8*256 + rom->read((ea+1)&0xffff);
       tick(1);
       vc.rd++;
     }
@@ -2374,6 +2385,14 @@ cl_m6809::inst_page2(t_mem code)
 }
 
 
+// the first load of S enables NMI
+void
+cl_m6809::arm_nmi(void)
+{
+  en_nmi= true;
+  hw_irq->cfg_read(cpu_nmi_en);
+}
+
 int
 cl_m6809::exec_inst(void)
 {
@@ -2415,12 +2434,13 @@ cl_m6809::accept_it(class it_level *il)
     }
   */
   tick(3);
-  reg.CC&= ~flagE;
-  if (is == src_irq || is == src_nmi)
-    reg.CC|= flagE;//is->Evalue;
-    
   if (!cwai)
-    push_regs(true);
+    {
+      reg.CC&= ~flagE;
+      if (is == src_irq || is == src_nmi)
+	reg.CC|= flagE;//is->Evalue;
+      push_regs(true);
+    }
   cwai= false;
   reg.CC|= flagI;//is->IFvalue;
   if (is == src_firq || is == src_nmi)
@@ -2432,7 +2452,9 @@ cl_m6809::accept_it(class it_level *il)
   PC= a;
 
   is->clear();
-  
+
+  // flags I and F hold off requests, not the level in service
+  il->level= ((class it_level *)(it_levels->top()))->level;
   it_levels->push(il);
   tick(2);
   return resGO;
diff --git a/src/sims/m6809.src/m6809cl.h b/src/sims/m6809.src/m6809cl.h
index a699000..b586c5c 100644
--- a/src/sims/m6809.src/m6809cl.h
+++ b/src/sims/m6809.src/m6809cl.h
@@ -89,6 +89,7 @@ public:
 public:
   class cl_address_space *rom;
   class cl_it_src *src_irq, *src_firq, *src_nmi;
+  class cl_hw *hw_irq;
 protected:
   u8_t *reg8_ptr[8];
   u16_t *reg16_ptr[8];
@@ -151,6 +152,7 @@ public:
 
   virtual int inst_page2(t_mem code);
     
+  virtual void arm_nmi(void);
   virtual int exec_inst(void);
   virtual int priority_of(uchar nuof_it) { return nuof_it; }
   virtual int accept_it(class it_level *il);
-- 
2.43.0


From 3312aa68c474e8beff93e9186b5cd9fbb4dc9ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:26 +0000
Subject: [PATCH 102/119] fix: stm8: RET lost the section of the caller, PC
 over 24 bits after relative jumps, level of interrupts taken from the handler
 instead of I1,I0, highest software priority not served first

---
 src/sims/stm8.src/inst.cc | 20 +++++++--------
 src/sims/stm8.src/stm8.cc | 53 ++++++++++++++++++++++++++++++++++++---
 2 files changed, 59 insertions(+), 14 deletions(-)

diff --git a/src/sims/stm8.src/inst.cc b/src/sims/stm8.src/inst.cc
index 6bdf9f0..c1b5a4d 100644
--- a/src/sims/stm8.src/inst.cc
+++ b/src/sims/stm8.src/inst.cc
@@ -422,13 +422,13 @@ cl_stm8::inst_btjfbtjt(t_mem code, unsigned char prefix)
   if (code & 0x01) { // btjf
 	pos = (code - 0x01) >> 1;
 	if(!( dbyte & (1<<pos))) {
-		PC += reljump;
+		PC = (PC + reljump) & PCmask;
 		tick(1);
 	}
   } else { // btjt
  	pos = (code - 0x00) >> 1;
 	if ( dbyte & (1<<pos)) {
-		PC += reljump;
+		PC = (PC + reljump) & PCmask;
 		tick(1);
 	}
   }
@@ -819,13 +819,13 @@ cl_stm8::inst_jr(t_mem code, unsigned char prefix)
        break;
       case 6: // JRNM (2C) / JRM (2D)
         taken = !(regs.CC & (BIT_I1|BIT_I0));
-        break;
-      case 7: // JRIL (2E) / JRIH (2F), no means to test this ???
-        taken = 0;
-        break;
-      default:
-        return(resHALT);
-    }
+        break;
+      case 7: // JRIL (2E) / JRIH (2F), no means to test this ???
+        taken = 0;
+        break;
+      default:
+        return(resHALT);
+    }
   }
   else
     return(resHALT);
@@ -837,7 +837,7 @@ cl_stm8::inst_jr(t_mem code, unsigned char prefix)
   ofs = fetch();
   if (taken)
     {
-      PC += ofs;
+      PC = (PC + ofs) & PCmask;
       tick(1);
     }
   return(resGO);
diff --git a/src/sims/stm8.src/stm8.cc b/src/sims/stm8.src/stm8.cc
index 1fdb9d5..7d58282 100644
--- a/src/sims/stm8.src/stm8.cc
+++ b/src/sims/stm8.src/stm8.cc
@@ -43,6 +43,7 @@ Software Foundation, 59 Temple Place - Suite 330, Boston, MA
 // sim
 //#include "simcl.h"
 #include "dregcl.h"
+#include "utils.h"
 
 // local
 #include "stm8cl.h"
@@ -1214,8 +1215,9 @@ cl_stm8::exec_inst(void)
 		    //printf("************* bad code !!!!\n");
                      return(resINV_INST);
                }
-            case 0x80: // ret
-               pop2( PC);
+            case 0x80: // ret, keeps the section (PCE) as CALL does
+               pop2( tempi);
+               PC = (PC & 0xff0000) | tempi;
 	       tick(3);
                return(resGO);
             case 0x10: 
@@ -1766,7 +1768,7 @@ cl_stm8::exec_inst(void)
              {
                signed char c = (signed char) fetch1();
                push2(PC);
-               PC += c;
+               PC = (PC + c) & PCmask;
 	       tick(3);
                return(resGO);
              }
@@ -1904,7 +1906,50 @@ cl_stm8::exec_inst(void)
 int
 cl_stm8::do_interrupt(void)
 {
-  return cl_uc::do_interrupt();
+  class cl_it_src *is, *best= NULL;
+  int i, pr, best_pr= 0;
+  bool is_en= it_enabled();
+
+  irq= false;
+  for (i= 0; i < it_sources->count; i++)
+    {
+      is= (class cl_it_src *)(it_sources->at(i));
+      is->pass_over();
+    }
+  // I1,I0 hold the current level, even if the handler changed them; the
+  // highest software priority is served first, then the lowest vector
+  for (i= 0; i < it_sources->count; i++)
+    {
+      is= (class cl_it_src *)(it_sources->at(i));
+      if (is->is_slave() ||
+	  (!is_en && !is->is_nmi()))
+	continue;
+      if (!is->is_active() ||
+	  !is->enabled() ||
+	  !is->pending())
+	continue;
+      irq= true;
+      pr= priority_of(is->nuof);
+      if (pr <= priority_main())
+	continue;
+      if (!best ||
+	  pr > best_pr ||
+	  (pr == best_pr &&
+	   is->nuof < best->nuof))
+	{
+	  best= is;
+	  best_pr= pr;
+	}
+    }
+  if (!best)
+    return resGO;
+  if (state == stIDLE)
+    state= stGO;
+  best->clear();
+  application->get_commander()->
+    debug("%g sec (%d clks): Accepting interrupt `%s' PC= 0x%06x\n",
+	  ticks->get_rtime(), ticks->get_ticks(), object_name(best), PC);
+  return accept_it(new it_level(best_pr, best->addr, PC, best));
 }
 
 int
-- 
2.43.0


From 9b90bce3ccec4949522e100905c7671f401445c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:46 +0000
Subject: [PATCH 103/119] fix: avr: immediate operands of CPI, SBCI and SUBI,
 ORI and ANDI, borrow of SBC, SBCI and CPC, ROR, half carry of ADC and NEG, Z
 of MUL, V of ADIW, SBIW of 32 and more, LPM by bytes, order of return
 addresses, skipping, data memory over 7Fh missing

---
 src/sims/avr.src/arith_inst.cc | 29 ++++++++--------
 src/sims/avr.src/avr.cc        | 12 +++----
 src/sims/avr.src/jump_inst.cc  | 61 +++++-----------------------------
 src/sims/avr.src/logic_inst.cc |  4 +--
 src/sims/avr.src/move_inst.cc  |  2 +-
 5 files changed, 32 insertions(+), 76 deletions(-)

diff --git a/src/sims/avr.src/arith_inst.cc b/src/sims/avr.src/arith_inst.cc
index 22d4524..3d90e72 100644
--- a/src/sims/avr.src/arith_inst.cc
+++ b/src/sims/avr.src/arith_inst.cc
@@ -43,7 +43,7 @@ cl_avr::cpi_Rd_K(t_mem code)
   t_mem D, K, result, res;
 
   d= 16+((code&0xf0)>>4);
-  K= (code&0xf) | ((code&0xf00)>>8);
+  K= (code&0xf) | ((code&0xf00)>>4);
   D= ram->read(d);
 
   if (K & 0x80)
@@ -93,7 +93,7 @@ cl_avr::sbci_Rd_K(t_mem code)
   t_mem D, K, result, res;
 
   d= 16+((code&0xf0)>>4);
-  K= (code&0xf) | ((code&0xf00)>>8);
+  K= (code&0xf) | ((code&0xf00)>>4);
   D= ram->read(d);
 
   if (K & 0x80)
@@ -101,7 +101,7 @@ cl_avr::sbci_Rd_K(t_mem code)
   if (D & 0x80)
     D|= ~0xff;
   t_mem sreg= ram->get(SREG);
-  result= (signed)D-(signed)K-(sreg&BIT_C)?1:0;
+  result= (signed)D-(signed)K-((sreg&BIT_C)?1:0);
   res= result & 0xff;
   ram->write(d, res);
   
@@ -144,7 +144,7 @@ cl_avr::subi_Rd_K(t_mem code)
   t_mem D, K, result, res;
 
   d= 16+((code&0xf0)>>4);
-  K= (code&0xf) | ((code&0xf00)>>8);
+  K= (code&0xf) | ((code&0xf00)>>4);
   D= ram->read(d);
 
   if (K & 0x80)
@@ -237,7 +237,7 @@ cl_avr::cpc_Rd_Rr(t_mem code)
   if (D & 0x80)
     D|= ~0xff;
   t_mem sreg= ram->get(SREG);
-  result= (signed)D-(signed)R-(sreg&BIT_C)?1:0;
+  result= (signed)D-(signed)R-((sreg&BIT_C)?1:0);
   res= result & 0xff;
   
   sreg= sreg & ~(BIT_H|BIT_S|BIT_V|BIT_N|BIT_C);
@@ -287,7 +287,7 @@ cl_avr::sbc_Rd_Rr(t_mem code)
   if (D & 0x80)
     D|= ~0xff;
   t_mem sreg= ram->get(SREG);
-  result= (signed)D-(signed)R-(sreg&BIT_C)?1:0;
+  result= (signed)D-(signed)R-((sreg&BIT_C)?1:0);
   res= result & 0xff;
   ram->write(d, res);
   
@@ -485,7 +485,8 @@ cl_avr::adc_Rd_Rr(t_mem code)
   R= ram->read(r);
   D= ram->read(d);
   t_mem sreg= ram->get(SREG);
-  result= D+R+((sreg&BIT_C)?1:0);
+  t_mem c= (sreg&BIT_C)?1:0;
+  result= D+R+c;
   res= result & 0xff;
   ram->write(d, res);
   
@@ -509,7 +510,7 @@ cl_avr::adc_Rd_Rr(t_mem code)
     sreg|= BIT_C;
   else
     sreg&= ~BIT_C;
-  if ((R&0xf) + (D&0xf) > 15)
+  if ((R&0xf) + (D&0xf) + c > 15)
     sreg|= BIT_H;
   else
     sreg&= ~BIT_H;
@@ -575,7 +576,7 @@ cl_avr::neg_Rd(t_mem code)
   ram->write(d, res);
   
   t_mem sreg= ram->get(SREG);
-  if (res & (~d) & 0x08)
+  if ((res | D) & 0x08)
     sreg|= BIT_H;
   else
     sreg&= ~BIT_H;
@@ -751,7 +752,7 @@ cl_avr::ror_Rd(t_mem code)
       sreg|= BIT_C;
       c= 1;
     }
-  result= (D >> 1) | oldc?0x80:0;
+  result= (D >> 1) | (oldc?0x80:0);
   res= result & 0xff;
   ram->write(d, res);
   if (res & 0x80)
@@ -844,9 +845,11 @@ cl_avr::mul_Rd_Rr(t_mem code)
   resh= (result>>8) & 0xff;
   ram->write(0, resl);
   ram->write(1, resh);
-  t_mem sreg= ram->read(SREG) & ~BIT_C;
+  t_mem sreg= ram->read(SREG) & ~(BIT_C|BIT_Z);
   if (resh & 0x80)
     sreg|= BIT_C;
+  if (!(result & 0xffff))
+    sreg|= BIT_Z;
   ram->write(SREG, sreg);
   tick(1);
   return(resGO);
@@ -880,7 +883,7 @@ cl_avr::adiw_Rdl_K(t_mem code)
     sreg|= BIT_Z;
   else
     sreg&= ~BIT_Z;
-  if (D&res&0x8000)
+  if ((~D)&res&0x8000)
     sreg|= (BIT_V|BIT_S);
   else
     sreg&= ~(BIT_V|BIT_S);
@@ -918,8 +921,6 @@ cl_avr::sbiw_Rdl_K(t_mem code)
   dl= 24+(2*((code&0x30)>>4));
   K= ((code&0xc0)>>2)|(code&0xf);
   D= ram->read(dl+1)*256 + ram->read(dl);
-  if (K & 0x20)
-    K|= ~0x3f;
   if (D & 0x8000)
     D|= ~0xffff;
   result= (signed)D-(signed)K;
diff --git a/src/sims/avr.src/avr.cc b/src/sims/avr.src/avr.cc
index 7e3e3ca..1fba550 100644
--- a/src/sims/avr.src/avr.cc
+++ b/src/sims/avr.src/avr.cc
@@ -188,11 +188,11 @@ cl_avr::make_memories(void)
   as->decoders->add(ad);
   ad->activate(0);
 
-  chip= new cl_chip8("iram_chip", 0x80, 8);
+  chip= new cl_chip8("iram_chip", 0x10000, 8);
   chip->init();
   memchips->add(chip);
   ad= new cl_address_decoder(as= ram/*address_space(MEM_IRAM_ID)*/,
-			     chip, 0, 0x7f, 0);
+			     chip, 0, 0xffff, 0);
   ad->init();
   as->decoders->add(ad);
   ad->activate(0);
@@ -692,9 +692,9 @@ cl_avr::push_addr(t_addr addr)
   sp= 0xffff & (256*sph + spl);
   al= addr & 0xff;
   ah= (addr>>8) & 0xff;
-  ram->write(sp, ah);
-  sp= 0xffff & (sp-1);
   ram->write(sp, al);
+  sp= 0xffff & (sp-1);
+  ram->write(sp, ah);
   vc.wr+= 2;
   sp= 0xffff & (sp-1);
   spl= sp & 0xff;
@@ -734,9 +734,9 @@ cl_avr::pop_addr(t_addr *addr)
   sph= ram->read(SPH);
   sp= 256*sph + spl;
   sp= 0xffff & (sp+1);
-  al= ram->read(sp);
-  sp= 0xffff & (sp+1);
   ah= ram->read(sp);
+  sp= 0xffff & (sp+1);
+  al= ram->read(sp);
   vc.rd+= 2;
   *addr= ah*256 + al;
   spl= sp & 0xff;
diff --git a/src/sims/avr.src/jump_inst.cc b/src/sims/avr.src/jump_inst.cc
index 85268d9..52c75a4 100644
--- a/src/sims/avr.src/jump_inst.cc
+++ b/src/sims/avr.src/jump_inst.cc
@@ -186,19 +186,8 @@ cl_avr::cpse_Rd_Rr(t_mem code)
   r= ((code&0x200)>>5)|(code&0xf);
   if (ram->read(r) == ram->read(d))
     {
-      t_mem next_code= rom->get(PC);
-      int i= 0;
-      struct dis_entry *dt= dis_tbl();
-      while ((next_code & dt[i].mask) != dt[i].code &&
-	     dt[i].mnemonic)
-	i++;
-      if (dt[i].mnemonic != NULL)
-	{
-	  PC= rom->validate_address(PC + dt[i].length);
-	  tick(1);
-	}
-      else
-	return(resINV_INST);
+      PC= rom->validate_address(PC + inst_length(PC));
+      tick(1);
     }
   return(resGO);
 }
@@ -316,19 +305,8 @@ cl_avr::sbrc_Rr_b(t_mem code)
   t_mem mask= 1<<b;
   if (!(ram->read(r) & mask))
     {
-      t_mem next_code= rom->get(PC);
-      int i= 0;
-      struct dis_entry *dt= dis_tbl();
-      while ((next_code & dt[i].mask) != dt[i].code &&
-	     dt[i].mnemonic)
-	i++;
-      if (dt[i].mnemonic != NULL)
-	{
-	  PC= rom->validate_address(PC + dt[i].length);
-	  tick(1);
-	}
-      else
-	return(resINV_INST);
+      PC= rom->validate_address(PC + inst_length(PC));
+      tick(1);
     }
   return(resGO);
 }
@@ -349,19 +327,8 @@ cl_avr::sbrs_Rr_b(t_mem code)
   t_mem mask= 1<<b;
   if (ram->read(r) & mask)
     {
-      t_mem next_code= rom->get(PC);
-      int i= 0;
-      struct dis_entry *dt= dis_tbl();
-      while ((next_code & dt[i].mask) != dt[i].code &&
-	     dt[i].mnemonic)
-	i++;
-      if (dt[i].mnemonic != NULL)
-	{
-	  PC= rom->validate_address(PC + dt[i].length);
-	  tick(1);
-	}
-      else
-	return(resINV_INST);
+      PC= rom->validate_address(PC + inst_length(PC));
+      tick(1);
     }
   return(resGO);
 }
@@ -384,13 +351,7 @@ cl_avr::sbic_P_b(t_mem code)
   vc.rd++;
   if (0 == (mask & ram->read(addr)))
     {
-      code= fetch();
-      int size= inst_length(code);
-      while (size > 1)
-	{
-	  fetch();
-	  size--;
-	}
+      PC= rom->validate_address(PC + inst_length(PC));
       tick(1);
     }
   return(resGO);
@@ -414,13 +375,7 @@ cl_avr::sbis_P_b(t_mem code)
   vc.rd++;
   if (mask & ram->read(addr))
     {
-      code= fetch();
-      int size= inst_length(code);
-      while (size > 1)
-	{
-	  fetch();
-	  size--;
-	}
+      PC= rom->validate_address(PC + inst_length(PC));
       tick(1);
     }
   return(resGO);
diff --git a/src/sims/avr.src/logic_inst.cc b/src/sims/avr.src/logic_inst.cc
index 6d7ae2e..b731165 100644
--- a/src/sims/avr.src/logic_inst.cc
+++ b/src/sims/avr.src/logic_inst.cc
@@ -44,7 +44,7 @@ cl_avr::ori_Rd_K(t_mem code)
 
   d= (code&0xf0)>>4;
   K= ((code&0xf00)>>4)|(code&0xf);
-  data= K | ram->read(d);
+  data= K | ram->read(d+16);
   ram->write(d+16, data);
   set_zn0s(data);
   return(resGO);
@@ -66,7 +66,7 @@ cl_avr::andi_Rd_K(t_mem code)
 
   d= (code&0xf0)>>4;
   K= ((code&0xf00)>>4)|(code&0xf);
-  data= K & ram->read(d);
+  data= K & ram->read(d+16);
   ram->write(d+16, data);
   set_zn0s(data);
   return(resGO);
diff --git a/src/sims/avr.src/move_inst.cc b/src/sims/avr.src/move_inst.cc
index cfd46fa..cd7aa41 100644
--- a/src/sims/avr.src/move_inst.cc
+++ b/src/sims/avr.src/move_inst.cc
@@ -43,7 +43,7 @@ cl_avr::lpm(t_mem code)
   t_mem data;
 
   addr= ram->get(ZH)*256 + ram->get(ZL);
-  data= rom->read(addr);
+  data= rom->read(addr>>1);
   vc.rd++;
   if (addr & 1)
     ram->/*write*/set(0, (data>>8)&0xff);
-- 
2.43.0


From 285321c8989101e1f467e82f179febb90295c076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:50 +0000
Subject: [PATCH 104/119] fix: m68hc08: DAA had no effect, DBNZ changed the
 flags, SWI enabled interrupts, RSP cleared the high byte of SP, jumps and
 stores through addresses over 64k

---
 src/sims/m68hc08.src/hc08mac.h |  2 +-
 src/sims/m68hc08.src/inst.cc   | 45 ++++++++++++----------------------
 2 files changed, 17 insertions(+), 30 deletions(-)

diff --git a/src/sims/m68hc08.src/hc08mac.h b/src/sims/m68hc08.src/hc08mac.h
index 66404ec..cdd4ebc 100644
--- a/src/sims/m68hc08.src/hc08mac.h
+++ b/src/sims/m68hc08.src/hc08mac.h
@@ -20,7 +20,7 @@
 #define store2(addr, val) { ram->write((t_addr) (addr) & 0xffff, (val >> 8) & 0xff); \
                             ram->write((t_addr) (addr+1) & 0xffff, val & 0xff); \
   			    vc.wr+=2; }
-#define store1(addr, val) { ram->write((t_addr) (addr), val); vc.wr++; }
+#define store1(addr, val) { ram->write((t_addr) (addr) & 0xffff, val); vc.wr++; }
 //#define get1(addr) ram->get((t_addr) (addr) & 0xffff)
 #define get1(addr) get_1(addr)
 //#define get2(addr) ((ram->get((t_addr) (addr) & 0xffff) << 8) | ram->get((t_addr) (addr+1) & 0xffff) )
diff --git a/src/sims/m68hc08.src/inst.cc b/src/sims/m68hc08.src/inst.cc
index f1094d9..b14db7e 100644
--- a/src/sims/m68hc08.src/inst.cc
+++ b/src/sims/m68hc08.src/inst.cc
@@ -158,7 +158,7 @@ cl_hc08::inst_setclearflags(t_mem code, bool prefix)
 int
 cl_hc08::inst_rsp(t_mem code, bool prefix)
 {
-  regs.SP = 0x00ff;
+  regs.SP |= 0x00ff;
   return(resGO);
 }
 
@@ -323,7 +323,7 @@ cl_hc08::inst_cpx(t_mem code, bool prefix)
 int
 cl_hc08::inst_jmp(t_mem code, bool prefix)
 {
-  PC = fetchea(code, prefix);
+  PC = fetchea(code, prefix) & 0xffff;
   tick(1); // extra cycle to reload pipeline
   return(resGO);
 }
@@ -335,7 +335,7 @@ cl_hc08::inst_jsr(t_mem code, bool prefix)
 
   push2(PC);
   tick(2);
-  PC = newPC;
+  PC = newPC & 0xffff;
   tick(1); // extra cycle to reload pipeline
 
   return(resGO);
@@ -348,7 +348,7 @@ cl_hc08::inst_bsr(t_mem code, bool prefix)
 
   push2(PC);
   tick(2);
-  PC += ofs;
+  PC = (PC + ofs) & 0xffff;
   tick(1); // extra cycle to reload pipeline
 
   return(resGO);
@@ -675,8 +675,6 @@ cl_hc08::inst_dbnz(t_mem code, bool prefix)
   }
 
   operand--;
-  FLAG_NZ (operand);
-  FLAG_ASSIGN (BIT_V, operand == 0x7f);
 
   if ((code & 0xf0) == 0x40)
     regs.A = operand;
@@ -692,7 +690,7 @@ cl_hc08::inst_dbnz(t_mem code, bool prefix)
   ofs = fetch();
   tick(1);
   if (operand)
-    PC += ofs;
+    PC = (PC + ofs) & 0xffff;
   tick(1); // extra cycle to reload pipeline
 
   return(resGO);
@@ -895,27 +893,16 @@ cl_hc08::inst_wait(t_mem code, bool prefix)
 int
 cl_hc08::inst_daa(t_mem code, bool prefix)
 {
-  uchar lsn, msn;
-
-  lsn = regs.A & 0xf;
-  msn = (regs.A >> 4) & 0xf;
-  if (regs.P & BIT_H) {
-    lsn += 16;
-    msn = (msn-1) & 0xf;
-  }
-  if (regs.P & BIT_C)
-    msn += 16;
+  uchar corr= 0;
 
-  FLAG_CLEAR (BIT_C);
-  while (lsn>9) {
-    lsn -= 10;
-    msn++;
-  }
-  if (msn>9) {
-    msn = msn % 10;
+  if ((regs.P & BIT_H) || ((regs.A & 0xf) > 9))
+    corr|= 0x06;
+  if ((regs.P & BIT_C) || (regs.A > 0x99)) {
+    corr|= 0x60;
     FLAG_SET (BIT_C);
   }
-
+  regs.A+= corr;
+  FLAG_NZ (regs.A);
   return(resGO);
 }
 
@@ -1015,7 +1002,7 @@ cl_hc08::inst_condbranch(t_mem code, bool prefix)
   ofs = fetch();
   tick(1);
   if (taken)
-    PC += ofs;
+    PC = (PC + ofs) & 0xffff;
   tick(1); // extra cycle to reload pipeline
 
   return(resGO);
@@ -1057,7 +1044,7 @@ cl_hc08::inst_bittestsetclear(t_mem code, bool prefix)
   ofs = fetch();
   tick(1);
   if (taken)
-    PC += ofs;
+    PC = (PC + ofs) & 0xffff;
   tick(1); // extra cycle to reload pipeline
 
   FLAG_ASSIGN (BIT_C, operand & (1 << bit));
@@ -1091,7 +1078,7 @@ cl_hc08::inst_cbeq(t_mem code, bool prefix)
   ofs = fetch();
   tick(1);
   if (operand1==operand2)
-    PC += ofs;  
+    PC = (PC + ofs) & 0xffff;  
 
   if (code == 0x71 || (!prefix && code == 0x61))
     incx();
@@ -1342,7 +1329,7 @@ cl_hc08::inst_swi(t_mem code, bool prefix)
   tick(1);
   push1(regs.P);
   tick(1);
-  FLAG_CLEAR(BIT_I);
+  FLAG_SET(BIT_I);
 
   PC = get2(0xfffc);
   tick(2);
-- 
2.43.0


From 20ba5e1528de0a569099ee21ef5ed241f718974c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:13 +0000
Subject: [PATCH 105/119] fix: s51: serial port: mode 2 was twice as fast, all
 modes used the divisor of timer 2 when it was the baud clock of one
 direction, timer 1 was counted together with timer 2, mode kept over reset

---
 src/sims/s51.src/serial.cc  | 77 +++++++++++++++++++------------------
 src/sims/s51.src/serialcl.h |  5 ++-
 2 files changed, 42 insertions(+), 40 deletions(-)

diff --git a/src/sims/s51.src/serial.cc b/src/sims/s51.src/serial.cc
index 7c4e3c7..8bbb3b8 100644
--- a/src/sims/s51.src/serial.cc
+++ b/src/sims/s51.src/serial.cc
@@ -84,7 +84,7 @@ cl_serial::init(void)
       t2_baud= d & (bmRCLK | bmTCLK);
     }
   else
-    t2_baud= false;
+    t2_baud= 0;
   /*
   chars pn(id_string);
   pn.append("%d_", id);
@@ -172,39 +172,19 @@ cl_serial::write(class cl_memory_cell *cell, t_mem *val)
 	{
 	case 0:
 	  _bits= 8;
-	  _divby= 12;
 	  break;
 	case 1:
 	  _bits= 10;
-	  _divby= _bmSMOD?16:32;
 	  break;
 	case 2:
-	  _bits= 11;
-	  _divby= _bmSMOD?16:32;
-	  break;
 	case 3:
 	  _bits= 11;
-	  _divby= _bmSMOD?16:32;
 	  break;
 	}
     }
   else if (cell == pcon)
     {
       _bmSMOD= *val & bmSMOD;
-      /*switch (_mode)
-	{
-	case 1:
-	  _divby= _bmSMOD?16:32;
-	  break;
-	case 2:
-	  _divby= _bmSMOD?16:32;
-	  break;
-	case 3:
-	  _divby= _bmSMOD?16:32;
-	  break;
-	  }*/
-      if (_mode)
-	_divby= _bmSMOD?16:32;
     }
   else
     conf(cell, val);
@@ -238,47 +218,56 @@ cl_serial::conf_op(cl_memory_cell *cell, t_addr addr, t_mem *val)
   return cell->get();
 }
 
+/* How many clocks of its source make one bit, for the direction which
+   uses T2 if bmT2CLK is set in T2CON */
+
+int
+cl_serial::bit_div(u8_t bmT2CLK)
+{
+  switch (_mode)
+    {
+    case 0: return 12;
+    case 2: return _bmSMOD?32:64;
+    default: return ((t2_baud & bmT2CLK) || _bmSMOD)?16:32;
+    }
+}
+
 int
 cl_serial::serial_bit_cnt(void)
 {
-  //int divby= 12;
+  int tr_div= bit_div(bmTCLK), rec_div= bit_div(bmRCLK);
   int *tr_src= 0, *rec_src= 0;
 
   switch (_mode)
     {
     case 0:
-      //divby  = 12;
       tr_src = &s_tr_tick;
       rec_src= &s_rec_tick;
       break;
     case 1:
     case 3:
-      //divby  = (/*pcon->get()&bmSMOD*/_bmSMOD)?16:32;
       tr_src = &s_tr_t1;
       rec_src= &s_rec_t1;
       break;
     case 2:
-      //divby  = (/*pcon->get()&bmSMOD*/_bmSMOD)?16:32;
       tr_src = &s_tr_tick;
       rec_src= &s_rec_tick;
       break;
     }
-  if (t2_baud)
-    _divby= 16;
   if (s_sending)
     {
-      while (*tr_src >= _divby)
+      while (*tr_src >= tr_div)
 	{
-	  (*tr_src)-= _divby;
+	  (*tr_src)-= tr_div;
 	  if (s_tr_bit < _bits)
 	    s_tr_bit++;
 	}
     }
   if (s_receiving)
     {
-      while (*rec_src >= _divby)
+      while (*rec_src >= rec_div)
 	{
-	  (*rec_src)-= _divby;
+	  (*rec_src)-= rec_div;
 	  s_rec_bit++;
 	}
     }
@@ -359,6 +348,11 @@ cl_serial::reset(void)
   s_receiving= false;
   s_rec_bit  = 0;
   s_tr_bit   = 0;
+  _mode      = 0;
+  _bmREN     = 0;
+  _bmSMOD    = 0;
+  _bits      = 8;
+  t2_baud    = 0;
 }
 
 void
@@ -368,8 +362,10 @@ cl_serial::happen(class cl_hw *where, enum hw_event he, void *params)
     {
       if (where->id == 1)
 	{
-	  s_rec_t1++;
-	  s_tr_t1++;
+	  if (!(t2_baud & bmRCLK))
+	    s_rec_t1++;
+	  if (!(t2_baud & bmTCLK))
+	    s_tr_t1++;
 	}
       if (where->id == 2 /*&& there_is_t2*/)
 	{
@@ -377,15 +373,20 @@ cl_serial::happen(class cl_hw *where, enum hw_event he, void *params)
 	    {
 	    case EV_T2_MODE_CHANGED:
 	      {
-		if (!t2_baud)
-		  s_rec_t1= s_tr_t1= 0;
 		t_mem *d= (t_mem *)params;
-		t2_baud= *d & (bmRCLK | bmTCLK);
+		u8_t n= *d & (bmRCLK | bmTCLK);
+		if ((n ^ t2_baud) & bmRCLK)
+		  s_rec_t1= 0;
+		if ((n ^ t2_baud) & bmTCLK)
+		  s_tr_t1= 0;
+		t2_baud= n;
 		break;
 	      }
 	    case EV_OVERFLOW:
-	      s_rec_t1++;
-	      s_tr_t1++;
+	      if (t2_baud & bmRCLK)
+		s_rec_t1++;
+	      if (t2_baud & bmTCLK)
+		s_tr_t1++;
 	      break;
 	    default: break;
 	    }
diff --git a/src/sims/s51.src/serialcl.h b/src/sims/s51.src/serialcl.h
index 9eea9bc..3285847 100644
--- a/src/sims/s51.src/serialcl.h
+++ b/src/sims/s51.src/serialcl.h
@@ -45,7 +45,8 @@ class cl_serial: public cl_serial_hw
 {
 protected:
   class cl_address_space *sfr, *bas;
-  bool there_is_t2, t2_baud;
+  bool there_is_t2;
+  u8_t t2_baud;	// RCLK,TCLK: directions clocked by T2
   class cl_memory_cell *sbuf, *pcon, *scon, *scon_bits[8];
   int   s_rec_t1;	// T1 overflows for receiving
   int   s_tr_t1;	// T1 overflows for sending
@@ -55,7 +56,6 @@ protected:
   uchar _bmREN;
   uchar _bmSMOD;
   uchar _bits;
-  uchar _divby;
 public:
   cl_serial(class cl_uc *auc);
   virtual ~cl_serial(void);
@@ -68,6 +68,7 @@ public:
   virtual void write(class cl_memory_cell *cell, t_mem *val);
   virtual t_mem conf_op(cl_memory_cell *cell, t_addr addr, t_mem *val);
 
+  virtual int  bit_div(u8_t bmT2CLK);
   virtual int  serial_bit_cnt(void);
   virtual void received(int c);
 
-- 
2.43.0


From af28487e3f4e2014e5417331546021fedcbda807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:35 +0000
Subject: [PATCH 106/119] fix: timers: time of a new timer not initialised,
 values cut to 32 bits, delete freed the wrong timer, get of a missing timer
 listed all

---
 src/core/cmd.src/cmd_timer.cc | 13 ++++++++++++-
 src/core/sim.src/uc.cc        |  7 ++++---
 src/core/sim.src/uccl.h       |  2 +-
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/core/cmd.src/cmd_timer.cc b/src/core/cmd.src/cmd_timer.cc
index 185f9da..2913320 100644
--- a/src/core/cmd.src/cmd_timer.cc
+++ b/src/core/cmd.src/cmd_timer.cc
@@ -85,6 +85,9 @@ COMMAND_DO_WORK_UC(cl_timer_cmd)
       as_nr= false;
       id_str= params[0]->s_value;
       ticker= uc->get_counter(id_str);
+      for (id_nr= 0; id_nr < uc->counters->count; id_nr++)
+	if (ticker && (uc->get_counter(id_nr) == ticker))
+	  break;
     }
   cmdline->shift();
   return(false);
@@ -214,6 +217,14 @@ COMMAND_DO_WORK_UC(cl_timer_get_cmd)
     {
       if (cl_timer_cmd::do_work(uc, cmdline, con))
 	return(false);
+      if (!ticker)
+	{
+	  if (!as_nr)
+	    con->dd_printf("Timer %s does not exist\n", id_str.c_str());
+	  else
+	    con->dd_printf("Timer %d does not exist\n", id_nr);
+	  return(false);
+	}
     }
   else
     ticker= 0;
@@ -333,7 +344,7 @@ COMMAND_DO_WORK_UC(cl_timer_value_cmd)
           if (units[0] != '\0' && units[0] != 's')
             con->dd_printf("Expected units to be in seconds not \"%s\"\n", cmdline->param(1)->value.string.string);
           else
-            ticker->set((int)(time / uc->get_xtal_tick()), time);
+            ticker->set((long)(time / uc->get_xtal_tick()), time);
         }
       else if (cmdline->syntax_match(uc, NUMBER NUMBER STRING))
         {
diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index da6a190..27f54e1 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -73,6 +73,7 @@ cl_ticker::cl_ticker(int adir, enum ticker_type atype, const char *aname, bool a
   dir= adir;
   type= atype;
   ticks= 0;
+  rtime= 0;
   run = true;
   set_name(aname);
   user= auser;
@@ -3091,7 +3092,7 @@ cl_uc::tickt(t_mem code)
 class cl_ticker *
 cl_uc::get_counter(int nr)
 {
-  if (nr >= counters->count)
+  if ((nr < 0) || (nr >= counters->count))
     return(0);
   return((class cl_ticker *)(counters->at(nr)));
 }
@@ -3146,9 +3147,9 @@ cl_uc::del_counter(int nr)
 {
   class cl_ticker *t;
 
-  if (nr >= counters->count)
+  if ((nr < 0) || (nr >= counters->count))
     return;
-  if ((t= (class cl_ticker *)(counters->at(0))) != 0)
+  if ((t= (class cl_ticker *)(counters->at(nr))) != 0)
     delete t;
   counters->put_at(nr, 0);
 }
diff --git a/src/core/sim.src/uccl.h b/src/core/sim.src/uccl.h
index 3e4f6c9..b61fe88 100644
--- a/src/core/sim.src/uccl.h
+++ b/src/core/sim.src/uccl.h
@@ -72,7 +72,7 @@ public:
   unsigned long get_ticks(void) { return ticks; }
   double get_rtime(void) { return rtime; }
 
-  void set(int nr, double time) { ticks = nr; rtime = time; }
+  void set(long nr, double time) { ticks = nr; rtime = time; }
 
   void tick(int nr, double time);
   void dump(int nr, class cl_console_base *con);
-- 
2.43.0


From 7e49e3aad165f947049e490b20410e9008df52ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:31 +0000
Subject: [PATCH 107/119] fix: setting all bits of a 32 bit cell with set
 memory wrote nothing

---
 src/core/cmd.src/cmd_set.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/cmd.src/cmd_set.cc b/src/core/cmd.src/cmd_set.cc
index 6280b02..d829383 100644
--- a/src/core/cmd.src/cmd_set.cc
+++ b/src/core/cmd.src/cmd_set.cc
@@ -107,7 +107,7 @@ COMMAND_DO_WORK_UC(cl_set_mem_cmd)
             con->dd_printf("Error: excess data for bit(s)\n");
           else
             {
-              t_mem mask= ((1U << (bitnr_high - bitnr_low + 1)) - 1) << bitnr_low;
+              t_mem mask= (((u64_t)1 << (bitnr_high - bitnr_low + 1)) - 1) << bitnr_low;
               mem->write(start, (mem->get(start) & (~mask)) | ((array[0] << bitnr_low) & mask));
               uc->check_errors();
               mem->dump(start, bitnr_high, bitnr_low, con);
-- 
2.43.0


From 885ecbabaa534564b04908c6384c60d59f5fed39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:31 +0000
Subject: [PATCH 108/119] fix: fill ended far beyond the end of the memory, or
 never

---
 src/core/cmd.src/cmd_uc.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/cmd.src/cmd_uc.cc b/src/core/cmd.src/cmd_uc.cc
index 60ad79a..a3c7411 100644
--- a/src/core/cmd.src/cmd_uc.cc
+++ b/src/core/cmd.src/cmd_uc.cc
@@ -634,12 +634,14 @@ COMMAND_DO_WORK_UC(cl_fill_cmd)
     start= params[1]->value.address;
     end  = params[2]->value.address;
     what = params[3]->value.number;
-    t_addr i;
+    t_addr i, h= mem->highest_valid_address();
     for (i= start; i <= end; i++)
       {
 	t_mem d;
 	d= what;
 	mem->write(i, d);
+	if (i > h)
+	  break;
       }
   }
   else
-- 
2.43.0


From e9da33e25d0d55145c28e722fb5773669ace99ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:32 +0000
Subject: [PATCH 109/119] fix: where and Where searched from address 0 in
 memories which start elsewhere

---
 src/core/sim.src/mem.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 92641f7..1c407b5 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -695,16 +695,18 @@ cl_memory::search_next(bool case_sensitive,
   bool found;
 
   if (addr == NULL)
-    a= 0;
+    a= start_address;
   else
     a= *addr;
+  if (a < start_address)
+    a= start_address;
 
-  if (a+len > size)
+  if (a-start_address+len > size)
     return(false);
 
   found= false;
   while (!found &&
-	 a+len <= size)
+	 a-start_address+len <= size)
     {
       bool match= true;
       for (i= 0; i < len && match; i++)
-- 
2.43.0


From 882587a470a1c2d61ba804d1eabd1c8ce342a22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:32 +0000
Subject: [PATCH 110/119] fix: dump skipped cells when it was continued, never
 ended for 0 bytes per line, dumped nothing down to address 0, wrote invalid
 hex records above 64K

---
 src/core/sim.src/mem.cc | 56 ++++++++++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 18 deletions(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 1c407b5..c0e10b7 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -218,7 +218,7 @@ cl_memory::dump(int smart,
   if (!con->get_fout())
     return dump_finished;
 
-  if (bpl < 0)
+  if (bpl <= 0)
     {
       bpl= 8;
       if (width > 16)
@@ -252,14 +252,14 @@ cl_memory::dump(int smart,
     {
       step= +1;
       ads->stop++;
-      if (ads->start + bpl > ads->stop)
+      if (ads->stop - ads->start < (t_addr)bpl)
         bpl= ads->stop - ads->start;
     }
   else
     {
       step= -1;
       ads->stop--;
-      if (ads->start - bpl < ads->stop)
+      if (ads->start - ads->stop < (t_addr)bpl)
         bpl= ads->start - ads->stop;
     }
 
@@ -278,7 +278,7 @@ cl_memory::dump(int smart,
 
   int state = 0;
 
-  while ((step>0)?(ads->start < ads->stop):(ads->start > ads->stop))
+  while ((step>0)?(ads->start < ads->stop):(ads->start != ads->stop))
     {
       if (smart && step > 0 && this == uc->rom)
         {
@@ -513,7 +513,7 @@ cl_memory::dump(int smart,
         break;
     }
 
-  if (dump_finished >= hva)
+  if (dump_finished > hva)
     dump_finished= lva;
 
   return(dump_finished);
@@ -529,7 +529,14 @@ cl_memory::dump_s(//t_addr start, t_addr stop,
   t_addr hva= highest_valid_address();
   class cl_f *f= con->get_fout();
 
+  if (!ads->use_start)
+    ads->start= dump_finished;
+
   t_addr a= ads->start;
+  if (a < lva)
+    a= lva;
+  if (a > hva)
+    return dump_finished;
   t_mem d= read(a);
   char last= '\n';
   con->dd_printf("%s", con->get_color_ansiseq("dump_char").c_str());
@@ -564,13 +571,14 @@ cl_memory::dump_s(//t_addr start, t_addr stop,
 	    }
 	  last= c;
 	}
-      d= read(++a);
+      if (++a <= hva)
+	d= read(a);
     }
   if (last != '\n')
     f->write_str("\n");
 
   dump_finished= a;
-  if (dump_finished >= hva)
+  if (dump_finished > hva)
     dump_finished= lva;
 
   return dump_finished;
@@ -586,24 +594,27 @@ cl_memory::dump_b(//t_addr start, t_addr stop,
   t_addr hva= highest_valid_address();
   class cl_f *f= con->get_fout();
 
+  if (bpl <= 0)
+    bpl= 8;
+  if (!ads->use_start)
+    ads->start= dump_finished;
   if (!ads->use_stop)
     ads->stop= ads->start + 10 * bpl - 1;
 
   t_addr a= ads->start;
-  t_mem d= read(a);
+  if (a < lva)
+    a= lva;
+  if (a > hva)
+    return dump_finished;
   while ((a <= ads->stop) &&
 	 (a <= hva))
     {
-      char c= d;
-      if (a >= lva)
-	{
-	  f->write(&c, 1);
-	}
-      d= read(++a);
+      char c= read(a++);
+      f->write(&c, 1);
     }
 
   dump_finished= a;
-  if (dump_finished >= hva)
+  if (dump_finished > hva)
     dump_finished= lva;
 
   return dump_finished;
@@ -618,9 +629,11 @@ cl_memory::dump_i(//t_addr start, t_addr stop,
   t_addr lva= lowest_valid_address();
   t_addr hva= highest_valid_address();
   unsigned int sum;
-  t_addr start_line;
+  t_addr start_line, base= 0;
   class cl_f *f= con->get_fout();
   
+  if (!ads->use_start)
+    ads->start= dump_finished;
   if (!ads->use_stop)
     ads->stop= ads->start + 10 * bpl - 1;
 
@@ -655,9 +668,16 @@ cl_memory::dump_i(//t_addr start, t_addr stop,
 	  if ((a - start_line) > 0)
 	    {
 	      unsigned char c;	      
+	      if ((start_line >> 16) != base)
+		{
+		  // extended linear address record
+		  base= start_line >> 16;
+		  sum= 2 + 4 + (base >> 8) + (base & 0xff);
+		  f->prntf(":02000004%04X%02X\r\n", base, (0x100 - sum) & 0xff);
+		}
 	      sum= 0;
 	      c= a-start_line;
-	      f->prntf(":%02X%04X00", c, start_line);
+	      f->prntf(":%02X%04X00", c, start_line & 0xffff);
 	      sum+= c;
 	      c= int(start_line >> 8) & 0xff;
 	      sum+= c;
@@ -680,7 +700,7 @@ cl_memory::dump_i(//t_addr start, t_addr stop,
   f->write_str(":00000001FF\r\n");
 
   dump_finished= a;
-  if (dump_finished >= hva)
+  if (dump_finished > hva)
     dump_finished= lva;
 
   return dump_finished;
-- 
2.43.0


From 53ccf3a191cfc192adb5a43c824ea15f2ef21e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:33 +0000
Subject: [PATCH 111/119] fix: MCS-48: ADC A,@Rr missing, DJNZ used R7 and
 never ended, expander instructions used P6 only and destroyed upper half of
 P2, wrong cycles of four instructions

---
 src/sims/i8048.src/branch.cc |  4 ++--
 src/sims/i8048.src/decode.h  |  8 ++++----
 src/sims/i8048.src/i8020cl.h | 18 ++++++++++--------
 src/sims/i8048.src/port.cc   |  2 +-
 4 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/sims/i8048.src/branch.cc b/src/sims/i8048.src/branch.cc
index 8286f10..fe5eca7 100644
--- a/src/sims/i8048.src/branch.cc
+++ b/src/sims/i8048.src/branch.cc
@@ -163,10 +163,10 @@ CL2::JMPPIA(MP)
 int
 CL2::djnz(MP)
 {
-  u8_t r= (code>>5)&7;
+  u8_t r= code & 7;
   u8_t a= fetch();
   R[r]->W(R[r]->R() - 1);
-  if (R[r] != 0)
+  if (R[r]->R() != 0)
     {
       PC&= 0xf00;
       PC+= a;
diff --git a/src/sims/i8048.src/decode.h b/src/sims/i8048.src/decode.h
index 371e2bc..9cbcb9a 100644
--- a/src/sims/i8048.src/decode.h
+++ b/src/sims/i8048.src/decode.h
@@ -90,7 +90,7 @@ DEC( 4f, ORLR7		, "orl a,r7"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 50, ANLIR0		, "anl a,@r0"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 51, ANLIR1		, "anl a,@r1"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 52, JB2		, "jb2 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
-DEC( 53, ANLI8		, "anl a,'i8'"	, ' ', 2, false, 1, (void*)"8421" )
+DEC( 53, ANLI8		, "anl a,'i8'"	, ' ', 2, false, 2, (void*)"8421" )
 DEC( 54, CALL2  	, "call 'a11'"	, ' ', 2, true, 2, (void*)"8421" )
 DEC( 55, STRTT		, "strt t"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 56, JT1		, "jt1 'a8'"	, 'i', 2, false, 2, (void*)"8421" )
@@ -125,7 +125,7 @@ DEC( 70, ADCIR0		, "adc a,@r0"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 71, ADCIR1		, "adc a,@r1"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 72, JB3		, "jb3 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 DEC( 74, CALL3  	, "call 'a11'"	, ' ', 2, true, 2, (void*)"8421" )
-DEC( 75, ENT0CLK        , "ent0 clk"    , ' ', 1, false, 2, (void*)"8---" )
+DEC( 75, ENT0CLK        , "ent0 clk"    , ' ', 1, false, 1, (void*)"8---" )
 DEC( 76, JF1		, "jf1 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 DEC( 77, RR		, "rr a"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 78, ADCR0		, "adc a,r0"	, ' ', 1, false, 1, (void*)"8421" )
@@ -176,8 +176,8 @@ DEC( 9d, ANLDP5A	, "anl p5,a"	, ' ', 1, false, 2, (void*)"8421" )
 DEC( 9e, ANLDP6A	, "anl p6,a"	, ' ', 1, false, 2, (void*)"8421" )
 DEC( 9f, ANLDP7A	, "anl p7,a"	, ' ', 1, false, 2, (void*)"8421" )
 
-DEC( a0, MOVIR0A	, "mov @r0,a"	, ' ', 1, false, 2, (void*)"8421" )
-DEC( a1, MOVIR1A	, "mov @r1,a"	, ' ', 1, false, 2, (void*)"8421" )
+DEC( a0, MOVIR0A	, "mov @r0,a"	, ' ', 1, false, 1, (void*)"8421" )
+DEC( a1, MOVIR1A	, "mov @r1,a"	, ' ', 1, false, 1, (void*)"8421" )
 // a2 undefined
 DEC( a3, MOVPAIA	, "movp a,@a"	, ' ', 1, false, 2, (void*)"8421" )
 DEC( a4, JMP5   	, "jmp 'a11'"   , '_', 2, false, 2, (void*)"8421" )
diff --git a/src/sims/i8048.src/i8020cl.h b/src/sims/i8048.src/i8020cl.h
index a89545a..9ad8ff6 100644
--- a/src/sims/i8048.src/i8020cl.h
+++ b/src/sims/i8048.src/i8020cl.h
@@ -223,6 +223,8 @@ protected:
   int ADCI8(MP) { return add(fetch(), true); }
   int ADDIR0(MP) { return add(read_ir(0), false); }
   int ADDIR1(MP) { return add(read_ir(1), false); }
+  int ADCIR0(MP) { return add(read_ir(0), true); }
+  int ADCIR1(MP) { return add(read_ir(1), true); }
   int ADDR0(MP) { return add(R[0]->read(), false); }
   int ADDR1(MP) { return add(R[1]->read(), false); }
   int ADDR2(MP) { return add(R[2]->read(), false); }
@@ -279,14 +281,14 @@ protected:
   int RR(MP);
   int RL(MP);
   int RLC(MP);
-  int ORLDP4A(MP) { RDWR; return orld(4+(code>>6), &cA); }
-  int ORLDP5A(MP) { RDWR; return orld(4+(code>>6), &cA); }
-  int ORLDP6A(MP) { RDWR; return orld(4+(code>>6), &cA); }
-  int ORLDP7A(MP) { RDWR; return orld(4+(code>>6), &cA); }
-  int ANLDP4A(MP) { RDWR; return anld(4+(code>>6), &cA); }
-  int ANLDP5A(MP) { RDWR; return anld(4+(code>>6), &cA); }
-  int ANLDP6A(MP) { RDWR; return anld(4+(code>>6), &cA); }
-  int ANLDP7A(MP) { RDWR; return anld(4+(code>>6), &cA); }
+  int ORLDP4A(MP) { RDWR; return orld(4+(code&3), &cA); }
+  int ORLDP5A(MP) { RDWR; return orld(4+(code&3), &cA); }
+  int ORLDP6A(MP) { RDWR; return orld(4+(code&3), &cA); }
+  int ORLDP7A(MP) { RDWR; return orld(4+(code&3), &cA); }
+  int ANLDP4A(MP) { RDWR; return anld(4+(code&3), &cA); }
+  int ANLDP5A(MP) { RDWR; return anld(4+(code&3), &cA); }
+  int ANLDP6A(MP) { RDWR; return anld(4+(code&3), &cA); }
+  int ANLDP7A(MP) { RDWR; return anld(4+(code&3), &cA); }
   int CLRC(MP) { cF.W(psw & ~flagC); return resGO; }
   int CPLC(MP) { cF.W(psw ^ flagC); return resGO; }
   int XRLIR0(MP) { RD; return xrl(iram_ir(0)); }
diff --git a/src/sims/i8048.src/port.cc b/src/sims/i8048.src/port.cc
index cb6b030..b57056f 100644
--- a/src/sims/i8048.src/port.cc
+++ b/src/sims/i8048.src/port.cc
@@ -219,7 +219,7 @@ cl_p2::set_low(u8_t val)
   r&= 0xf0;
   val&= 0xf;
   r|= val;
-  cfg_write(port_odr, val);
+  cfg_write(port_odr, r);
 }
 
 
-- 
2.43.0


From ae0a615e2cf0163cd9beadccdefba30c06c76103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:16 +0000
Subject: [PATCH 112/119] fix: LR35902: DAA and CCF were the Z80 ones, wrong
 flags of ADD SP and LD HL,SP+d, clocks counted twice

---
 src/sims/z80.src/gb80cl.h     |   6 +-
 src/sims/z80.src/glob_gb80.cc |  10 +-
 src/sims/z80.src/inst_gb80.cc | 179 +++++++---------------------------
 3 files changed, 42 insertions(+), 153 deletions(-)

diff --git a/src/sims/z80.src/gb80cl.h b/src/sims/z80.src/gb80cl.h
index e859f24..7403224 100644
--- a/src/sims/z80.src/gb80cl.h
+++ b/src/sims/z80.src/gb80cl.h
@@ -95,11 +95,9 @@ public:
   /* instruction function that are add / modified from the Z80 versions */
   virtual int inst_cb(void);
 
-  virtual int inst_jr   (t_mem code);
-  virtual int inst_call (t_mem code);
-  virtual int inst_ret  (t_mem code);
   virtual int inst_jp   (t_mem code);
-  virtual int inst_add  (t_mem code);
+  virtual int inst_daa  (t_mem code);
+  virtual int inst_ccf  (t_mem code);
 
   virtual int inst_st_sp_abs(t_mem code);
   virtual int inst_stop0    (t_mem code);
diff --git a/src/sims/z80.src/glob_gb80.cc b/src/sims/z80.src/glob_gb80.cc
index c161921..5196bea 100644
--- a/src/sims/z80.src/glob_gb80.cc
+++ b/src/sims/z80.src/glob_gb80.cc
@@ -618,7 +618,7 @@ u16_t gb_ttab_00[256]= {
     /*0*/      4, 12,       8,  8,       4,   4,  8,  4,     20,  8,       8,  8,       4,  4,  8,  4,
     /*1*/      4, 12,       8,  8,       4,   4,  8,  4,     12,  8,       8,  8,       4,  4,  8,  4,
     /*2*/T(12,8), 12,       8,  8,       4,   4,  8,  4,T(12,8),  8,       8,  8,       4,  4,  8,  4,
-    /*3*/T(12,8), 18,       8,  8,      12,  12, 12,  4,T(12,8),  8,       8,  8,       4,  4,  8,  4,
+    /*3*/T(12,8), 12,       8,  8,      12,  12, 12,  4,T(12,8),  8,       8,  8,       4,  4,  8,  4,
     /*4*/      4,  4,       4,  4,       4,   4,  8,  4,      4,  4,       4,  4,       4,  4,  8,  4,
     /*5*/      4,  4,       4,  4,       4,   4,  8,  4,      4,  4,       4,  4,       4,  4,  8,  4,
     /*6*/      4,  4,       4,  4,       4,   4,  8,  4,      4,  4,       4,  4,       4,  4,  8,  4,
@@ -641,10 +641,10 @@ u16_t gb_ttab_cb[256]= {
   /*1*/ 8, 8, 8, 8, 8, 8, 16, 8, 8, 8, 8, 8, 8, 8, 16, 8,
   /*2*/ 8, 8, 8, 8, 8, 8, 16, 8, 8, 8, 8, 8, 8, 8, 16, 8,
   /*3*/ 8, 8, 8, 8, 8, 8, 16, 8, 8, 8, 8, 8, 8, 8, 16, 8,
-  /*4*/ 8, 8, 8, 8, 8, 8, 16, 8, 8, 8, 8, 8, 8, 8, 16, 8,
-  /*5*/ 8, 8, 8, 8, 8, 8, 16, 8, 8, 8, 8, 8, 8, 8, 16, 8,
-  /*6*/ 8, 8, 8, 8, 8, 8, 16, 8, 8, 8, 8, 8, 8, 8, 16, 8,
-  /*7*/ 8, 8, 8, 8, 8, 8, 16, 8, 8, 8, 8, 8, 8, 8, 16, 8,
+  /*4*/ 8, 8, 8, 8, 8, 8, 12, 8, 8, 8, 8, 8, 8, 8, 12, 8,
+  /*5*/ 8, 8, 8, 8, 8, 8, 12, 8, 8, 8, 8, 8, 8, 8, 12, 8,
+  /*6*/ 8, 8, 8, 8, 8, 8, 12, 8, 8, 8, 8, 8, 8, 8, 12, 8,
+  /*7*/ 8, 8, 8, 8, 8, 8, 12, 8, 8, 8, 8, 8, 8, 8, 12, 8,
   /*    0  1  2  3  4  5   6  7  8  9  a  b  c  d   e  f */
   /*8*/ 8, 8, 8, 8, 8, 8, 16, 8, 8, 8, 8, 8, 8, 8, 16, 8,
   /*9*/ 8, 8, 8, 8, 8, 8, 16, 8, 8, 8, 8, 8, 8, 8, 16, 8,
diff --git a/src/sims/z80.src/inst_gb80.cc b/src/sims/z80.src/inst_gb80.cc
index ffe6dd6..dbf9d5f 100644
--- a/src/sims/z80.src/inst_gb80.cc
+++ b/src/sims/z80.src/inst_gb80.cc
@@ -38,16 +38,10 @@ int cl_gb80::inst_cb(void) {
   u8_t  result;
   t_mem       code;
   
-  if ( (peek1( ) & 0xf8) != 0x30 ) {
-    // (hl) has to be rounded, but not for bit
-    if ((peek1( ) & 0x7) == 0x6)
-      if (peek1( ) < 0x50 || peek1( ) >= 0x80)
-        tick(1);
+  if ( (peek1( ) & 0xf8) != 0x30 )
     return cl_z80::inst_cb( );
-  }
   
   code = fetch1();
-  tick(7);
   
   /* perform SWAP instead of slia */
   switch(code) {
@@ -59,7 +53,6 @@ int cl_gb80::inst_cb(void) {
   case 0x35: result = regs.hl.l = swap_nibbles(regs.hl.l); break; /* l */
   case 0x36: /* SWAP (HL) */
     {
-      tick(8);
       result = swap_nibbles(get1(regs.HL));
       store1(regs.HL, result);
       vc.rd++;
@@ -74,121 +67,32 @@ int cl_gb80::inst_cb(void) {
   return(resGO);
 }
 
-int cl_gb80::inst_jr(t_mem code)
-{
-  /* fix timing for untaken jr */
-  switch(code) {
-    case 0x20: // JR NZ,dd
-      if ((regs.raf.F & BIT_Z)) {
-        tick(1);
-      }
-    break;
-    case 0x28: // JR Z,dd
-      if (!(regs.raf.F & BIT_Z)) {
-        tick(1);
-      }
-    break;
-    case 0x30: // JR NC,dd
-      if ((regs.raf.F & BIT_C)) {
-        tick(1);
-      }
-    break;
-    case 0x38: // JR C,dd
-      if (!(regs.raf.F & BIT_C)) {
-        tick(1);
-      }
-    break;
-  }
-  
-  return cl_z80::inst_jr(code);
-}
-
-int cl_gb80::inst_call(t_mem code)
-{
-  /* fix timing for taken call */
-  switch(code)
-    {
-    case 0xC4: // CALL NZ,nnnn
-      if (!(regs.raf.F & BIT_Z)) {
-        tick(5);
-      }
-      break;
-    case 0xCC: // CALL Z,nnnn
-      if (regs.raf.F & BIT_Z) {
-        tick(5);
-      }
-      break;
-    case 0xD4: // CALL NC,nnnn
-      if (!(regs.raf.F & BIT_C)) {
-        tick(5);
-      }
-      break;
-    case 0xDC: // CALL C,nnnn
-      if (regs.raf.F & BIT_C) {
-        tick(5);
-      }
-      break;
-    }
-  
-  return cl_z80::inst_call(code);
-}
-
-int cl_gb80::inst_ret(t_mem code)
-{
-  /* fix timing for taken ret */
-  switch(code)
-    {
-    case 0xC0: // RET NZ
-      if (!(regs.raf.F & BIT_Z)) {
-        tick(6);
-      }
-      break;
-    case 0xC8: // RET Z
-      if ((regs.raf.F & BIT_Z)) {
-        tick(6);
-      }
-      break;
-    case 0xD0: // RET NC
-      if (!(regs.raf.F & BIT_C)) {
-        tick(6);
-      }
-      break;
-    case 0xD8: // RET C
-      if ((regs.raf.F & BIT_C)) {
-        tick(6);
-      }
-      break;
-    }
-  
-  return cl_z80::inst_ret(code);
-}
-
 int cl_gb80::inst_jp(t_mem code)
 {
-  /* fix timing for taken ret */
+  /* taken jump is longer */
   switch (code)
     {
     case 0xC2: // JP NZ,nnnn
       if (!(regs.raf.F & BIT_Z)) {
-        tick(4);
+        cond_true= true;
       }
       break;
       
     case 0xCA: // JP Z,nnnn
       if (regs.raf.F & BIT_Z) {
-        tick(4);
+        cond_true= true;
       }
       break;
       
     case 0xD2: // JP NC,nnnn
       if (!(regs.raf.F & BIT_C)) {
-        tick(4);
+        cond_true= true;
       }
       break;
       
     case 0xDA: // JP C,nnnn
       if (regs.raf.F & BIT_C) {
-        tick(4);
+        cond_true= true;
       }
       break;
     }
@@ -196,34 +100,35 @@ int cl_gb80::inst_jp(t_mem code)
   return cl_z80::inst_jp(code);
 }
 
-int cl_gb80::inst_add(t_mem code)
+int cl_gb80::inst_daa(t_mem code)
 {
-  /* 16bit addition is faster */
-  switch(code)
+  u8_t incr= 0;
+  u8_t c= regs.raf.F & BIT_C;
+
+  if (regs.raf.F & BIT_N)
     {
-    case 0x09: // ADD HL,BC
-      add_HL_Word(regs.BC);
-      tick(7);
-      break;
-    case 0x19: // ADD HL,DE
-      add_HL_Word(regs.DE);
-      tick(7);
-      break;
-    case 0x29: // ADD HL,HL
-      add_HL_Word(regs.HL);
-      tick(7);
-      break;
-    case 0x39: // ADD HL,SP
-      add_HL_Word(regs.SP);
-      tick(7);
-      break;
-      
-    default:
-      return(cl_z80::inst_add(code));
-      break;
+      if (regs.raf.F & BIT_A) incr|= 0x06;
+      if (c) incr|= 0x60;
+      regs.raf.A-= incr;
+    }
+  else
+    {
+      if ((regs.raf.F & BIT_A) || ((regs.raf.A & 0x0f) > 9)) incr|= 0x06;
+      if (c || (regs.raf.A > 0x99)) { incr|= 0x60; c= BIT_C; }
+      regs.raf.A+= incr;
     }
+  regs.raf.F&= BIT_N;
+  regs.raf.F|= c;
+  if (regs.raf.A == 0)
+    regs.raf.F|= BIT_Z;
+  return resGO;
+}
 
-  return(resGO);
+int cl_gb80::inst_ccf(t_mem code)
+{
+  regs.raf.F^= BIT_C;
+  regs.raf.F&= ~(BIT_N|BIT_A);
+  return resGO;
 }
 
 int cl_gb80::inst_st_sp_abs(t_mem code) {
@@ -231,7 +136,6 @@ int cl_gb80::inst_st_sp_abs(t_mem code) {
     u16_t addr = fetch2( );
     store2( addr, regs.SP );
     vc.wr+= 2;
-    tick(19);
     return(resGO);
   }
   
@@ -241,7 +145,6 @@ int cl_gb80::inst_st_sp_abs(t_mem code) {
 int cl_gb80::inst_stop0    (t_mem code) {
   // TODO: change to wait for a signal for simulated hardware
   fetch(); // second byte of the instruction
-  tick(3);//can be 7 sometimes
   return resHALT;
 }
 
@@ -250,13 +153,11 @@ int cl_gb80::inst_ldi   (t_mem code) {
     store1( regs.HL, regs.raf.A );
     regs.HL ++;
     vc.wr++;
-    tick(7);
     return resGO;
   } else if (code == 0x2A) {
     regs.raf.A = get1( regs.HL );
     regs.HL ++;
     vc.rd++;
-    tick(7);
     return resGO;
   }
   
@@ -268,13 +169,11 @@ int cl_gb80::inst_ldd   (t_mem code) {
     store1( regs.HL, regs.raf.A );
     regs.HL --;
     vc.wr++;
-    tick(7);
     return resGO;
   } else if (code == 0x3A) {
     regs.raf.A = get1( regs.HL );
     regs.HL --;
     vc.rd++;
-    tick(7);
     return resGO;
   }
   
@@ -288,18 +187,15 @@ int cl_gb80::inst_ldh   (t_mem code) {
     addr += regs.bc.l;
   } else {
     addr += fetch1( );
-    tick(4);
   }
   
   if ((code & 0xFD) == 0xE0) {
     store1( addr, regs.raf.A );
     vc.wr++;
-    tick(7);
     return resGO;
   } else if ((code & 0xFD) == 0xF0) {
     regs.raf.A = get1( addr );
     vc.rd++;
-    tick(7);
     return resGO;
   }
   
@@ -309,7 +205,6 @@ int cl_gb80::inst_ldh   (t_mem code) {
 int cl_gb80::inst_reti  (t_mem code) {
   /* enable interrupts */
   cl_z80::inst_ei(0xFB);
-  tick(12);
   
   /* pop2(PC); */
   PC=get2(regs.SP);
@@ -325,14 +220,13 @@ int cl_gb80::inst_add_sp_d(t_mem code) {
   d |= (d>>7)*0xFF00;
   
   regs.raf.F &= ~(BIT_ALL);  /* clear these */
-  if ((regs.SP & 0x0FFF) + (d & 0x0FFF) > 0x0FFF)
+  if ((regs.SP & 0x000F) + (d & 0x000F) > 0x000F)
     regs.raf.F |= BIT_A;
-  if (regs.SP + (int)(d) > 0xffff)
+  if ((regs.SP & 0x00FF) + (d & 0x00FF) > 0x00FF)
     regs.raf.F |= BIT_C;
   
   regs.SP = (regs.SP + d) & 0xffff;
 
-  tick(15);
   return(resGO);
 }
 
@@ -341,12 +235,10 @@ int cl_gb80::inst_ld16  (t_mem code) {
   if (code == 0xEA) {
     store1( addr, regs.raf.A );
     vc.wr++;
-    tick(15);
     return resGO;
   } else if (code == 0xFA) {
     regs.raf.A = get1( addr );
     vc.rd++;
-    tick(15);
     return resGO;
   }
   
@@ -359,13 +251,12 @@ int cl_gb80::inst_ldhl_sp (t_mem code) {
   d |= (d>>7)*0xFF00;
 
   regs.raf.F &= ~(BIT_ALL);  /* clear these */
-  if ((regs.SP & 0x0FFF) + (d & 0x0FFF) > 0x0FFF)
+  if ((regs.SP & 0x000F) + (d & 0x000F) > 0x000F)
     regs.raf.F |= BIT_A;
-  if (regs.SP + (int)(d) > 0xffff)
+  if ((regs.SP & 0x00FF) + (d & 0x00FF) > 0x00FF)
     regs.raf.F |= BIT_C;
   
   regs.HL = (regs.SP + d) & 0xffff;
-  tick(11);
   return resGO;
 }
 
-- 
2.43.0


From d924501f1f9db6f7c2d1757ef8a049b19a19de47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:54 +0000
Subject: [PATCH 113/119] fix: vcd: bits could not be added by name, whole
 cells and bit ranges could not be deleted, mask of 32 bit wide variables

---
 src/core/sim.src/vcd.cc | 45 +++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/src/core/sim.src/vcd.cc b/src/core/sim.src/vcd.cc
index ad4db21..b045895 100644
--- a/src/core/sim.src/vcd.cc
+++ b/src/core/sim.src/vcd.cc
@@ -121,7 +121,9 @@ cl_vcd_var::cl_vcd_var(class cl_vcd *vcd, char var_id, class cl_memory_cell *cel
   this->bitnr_high = bitnr_high;
   this->bitnr_low = bitnr_low;
 
-  bitmask = ((1U << (bitnr_high - bitnr_low + 1)) - 1) << bitnr_low;
+  bitmask = 0;
+  for (int i = bitnr_low; i <= bitnr_high; i++)
+    bitmask |= (t_mem)1 << i;
 
   if (!(this->var_id = var_id))
     {
@@ -227,6 +229,15 @@ cl_vcd::add_var(class cl_console_base *con, char var_id, class cl_memory_cell *c
 void
 cl_vcd::del_var(class cl_console_base *con, class cl_memory_cell *cell, int bitnr_low, int bitnr_high)
 {
+  if (!cell)
+    return;
+
+  if (bitnr_high == -1)
+    bitnr_high = cell->get_width() - 1;
+
+  if (bitnr_low == -1)
+    bitnr_low = 0;
+
   for (class cl_vcd_var **var_p = &vars; *var_p; var_p = &((*var_p)->next_var))
     {
       if ((*var_p)->cell == cell)
@@ -272,7 +283,7 @@ cl_vcd::del_var(class cl_console_base *con, class cl_memory *m, t_addr a, int bi
 {
   if (!m->is_address_space())
     {
-      if (con) con->dd_printf("%s is not an address space\n");
+      if (con) con->dd_printf("Not an address space\n");
       return;
     }
   if (!m->valid_address(a))
@@ -542,19 +553,6 @@ cl_vcd::set_cmd(class cl_cmdline *cmdline, class cl_console_base *con)
   */
   if (0)
     ;
-  else if (cmdline->syntax_match(uc, STRING CELL)) // DEL|ADD
-    {
-      char *p1= params[0]->value.string.string;
-      if (p1 && *p1)
-        {
-          if (strcmp(p1, "add") == 0)
-            add_var(con, params[1]->value.cell, -1, -1);
-          else if (strstr(p1, "del") == p1)
-            del_var(con, params[1]->value.cell, -1, -1);
-          return true;
-        }
-      return false;
-    }
   else if (cmdline->syntax_match(uc, STRING BIT)) // DEL|ADD
     {
       char *p1= params[0]->value.string.string;
@@ -586,6 +584,19 @@ cl_vcd::set_cmd(class cl_cmdline *cmdline, class cl_console_base *con)
         }
       return false;
     }
+  else if (cmdline->syntax_match(uc, STRING CELL)) // DEL|ADD
+    {
+      char *p1= params[0]->value.string.string;
+      if (p1 && *p1)
+        {
+          if (strcmp(p1, "add") == 0)
+            add_var(con, params[1]->value.cell, -1, -1);
+          else if (strstr(p1, "del") == p1)
+            del_var(con, params[1]->value.cell, -1, -1);
+          return true;
+        }
+      return false;
+    }
   else if (cmdline->syntax_match(uc, STRING MEMORY ADDRESS NUMBER NUMBER)) // DEL|ADD
     {
       char *p1= params[0]->value.string.string;
@@ -594,7 +605,7 @@ cl_vcd::set_cmd(class cl_cmdline *cmdline, class cl_console_base *con)
           if (strcmp(p1, "add") == 0)
             add_var(con, params[1]->value.memory.memory, params[2]->value.address, params[3]->value.number, params[4]->value.number);
           else if (strstr(p1, "del") == p1)
-            del_var(con, params[1]->value.memory.memory, params[2]->value.address, params[3]->value.number, params[4]->value.number);
+            del_var(con, params[1]->value.memory.memory, params[2]->value.address, params[4]->value.number, params[3]->value.number);
           return true;
         }
       return false;
@@ -633,7 +644,7 @@ cl_vcd::set_cmd(class cl_cmdline *cmdline, class cl_console_base *con)
           if (strcmp(p1, "add") == 0)
             add_var(con, params[1]->value.cell, params[2]->value.number, params[3]->value.number);
           else if (strstr(p1, "del") == p1)
-            del_var(con, params[1]->value.cell, params[2]->value.number, params[3]->value.number);
+            del_var(con, params[1]->value.cell, params[3]->value.number, params[2]->value.number);
           return true;
         }
       return false;
-- 
2.43.0


From e6245a66e925cf4f9d7652c9a113bc0f6571d403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:54 +0000
Subject: [PATCH 114/119] fix: vcd: replay never drove top bit of a named cell,
 drove zeros instead of unknown values, read comments as values, counted start
 time twice

---
 src/core/sim.src/vcd.cc | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/core/sim.src/vcd.cc b/src/core/sim.src/vcd.cc
index b045895..f35996c 100644
--- a/src/core/sim.src/vcd.cc
+++ b/src/core/sim.src/vcd.cc
@@ -400,7 +400,7 @@ cl_vcd::parse_header(cl_console_base *con)
         {
           if (token[0] == '#')
             {
-              event = starttime + timescale * strtod(&token[1], NULL);
+              event = timescale * strtod(&token[1], NULL);
               //uc->sim->app->debug("vcd[%d]: first event at %.15f\n", cl_hw::id, event);
               break;
             }
@@ -457,8 +457,11 @@ cl_vcd::parse_header(cl_console_base *con)
 
           if (param->as_bit(uc))
             {
+              // name of a whole cell has no bit number
+              int low = (param->value.bit.bitnr_low < 0 ? 0 : param->value.bit.bitnr_low);
+
               if (param->value.bit.mem->is_address_space())
-                add_var(con, id, ((cl_address_space *)param->value.bit.mem)->get_cell(param->value.bit.mem_address), param->value.bit.bitnr_low + width - 1, param->value.bit.bitnr_low);
+                add_var(con, id, ((cl_address_space *)param->value.bit.mem)->get_cell(param->value.bit.mem_address), low + width - 1, low);
               else
                 con->dd_printf("Unable to interpret %s as a memory/bit reference in an address space\n", token);
             }
@@ -696,7 +699,9 @@ cl_vcd::set_cmd(class cl_cmdline *cmdline, class cl_console_base *con)
           else
             {
               starttime += time;
-              event += time;
+              if (state == -1 || (started && !paused))
+                // otherwise it is relative to starttime
+                event += time;
               //uc->sim->app->debug("vcd[%d]: event rescheduled to %.15f\n", cl_hw::id, event);
             }
           return true;
@@ -1051,7 +1056,13 @@ cl_vcd::tick(int cycles)
         {
           if (state == 0 && word[0] != '1' && word[0] != '0')
             {
-              if (word[0] == '#')
+              if (!strcmp(word, "$comment"))
+                {
+                  // The text can be anything
+                  while (read_word(0U) && strcmp(word, "$end"))
+                    ;
+                }
+              else if (word[0] == '#')
                 {
                   event = starttime + timescale * strtod(&word[1], NULL);
                   //uc->sim->app->debug("vcd[%d]: next event at %.15f\n", cl_hw::id, event);
@@ -1062,33 +1073,35 @@ cl_vcd::tick(int cycles)
               else if (word[0] == 'b' || word[0] == 'B')
                 {
                   // Bit-vector value, next word is ID
+                  value = 0;
                   for (char *ptr = word; *ptr; ptr++)
                     value = (value << 1) | (*ptr == '1' ? 1 : 0);
-                  state = 1;
+                  // Unknown values do not change anything, as at single bits
+                  state = (strpbrk(word, "xXzZ") ? 2 : 1);
                 }
               else if (word[0] == 'r' || word[0] == 'R')
                 {
                   // Real value, next word is ID
                   // Unsupported
-                  state = 1;
+                  state = 2;
                 }
             }
-          else if (state == 1 || word[0] == '1' || word[0] == '0')
+          else if (state == 0 || state == 1)
             {
               // ID for preceding value or bit followed by ID
               char id;
-              if (word[0] == '1')
+              if (state == 1)
+                id = word[0];
+              else if (word[0] == '1')
                 {
                   value = 1;
                   id = word[1];
                 }
-              else if (word[0] == '0')
+              else
                 {
                   value = 0;
                   id = word[1];
                 }
-              else
-                id = word[0];
 
               for (class cl_vcd_var *var = vars; var; var = var->next_var)
                 {
-- 
2.43.0


From 505c6df16eb1b551a4dee79846867cf3de8c1a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:54 +0000
Subject: [PATCH 115/119] fix: vcd: time scale command recorded a file with
 wrong time unit

---
 src/core/sim.src/vcd.cc | 51 ++++++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/src/core/sim.src/vcd.cc b/src/core/sim.src/vcd.cc
index f35996c..15207af 100644
--- a/src/core/sim.src/vcd.cc
+++ b/src/core/sim.src/vcd.cc
@@ -94,6 +94,19 @@ static int spipe2(int pipefd[2], int flags) { return pipe(pipefd); }
 
 #endif
 
+// Length of a time unit if there are "timescale" of them in a second
+static double period_of(double timescale, const char *&unit)
+{
+  static const char *units[5]= { "ms", "us", "ns", "ps", "fs" };
+  double n = 1e3;
+  int i;
+
+  for (i = 0; i < 4 && n / timescale < 0.5; i++)
+    n *= 1e3;
+  unit = units[i];
+  return n / timescale;
+}
+
 class cl_vcd_var: public cl_memory_operator
 {
  public:
@@ -688,7 +701,8 @@ cl_vcd::set_cmd(class cl_cmdline *cmdline, class cl_console_base *con)
           else
             con->dd_printf("Units must be ms, us, ns, ps or fs\n");
           if (p1[0] == 't')
-            timescale = time;
+            // output counts in units per second, input in seconds per unit
+            timescale = ((state == -1 && time > 0) ? 1.0 / time : time);
           else if (p1[0] == 'p')
             {
               pausetime = time;
@@ -741,7 +755,10 @@ cl_vcd::set_cmd(class cl_cmdline *cmdline, class cl_console_base *con)
               if (filename)
                 free(filename);
               filename = NULL;
-              state = (!strcmp(p1, "input") ? 0 : -1);
+              int mode = ((strstr(p1, "in") == p1) ? 0 : -1);
+              if ((mode == -1) != (state == -1))
+                timescale = 0;
+              state = mode;
               if (!state && (!p2 || !*p2))
                 con->dd_printf("Name missing\n");
               else if (p2 && *p2)
@@ -763,6 +780,8 @@ cl_vcd::set_cmd(class cl_cmdline *cmdline, class cl_console_base *con)
               if (filename)
                 free(filename);
               filename = NULL;
+              if (state != -1)
+                timescale = 0;
               state = -1;
               return true;
             }
@@ -803,18 +822,9 @@ cl_vcd::set_cmd(class cl_cmdline *cmdline, class cl_console_base *con)
 		      else
 			fprintf(fd, "$date\n\t%s$end\n", ctime(&now));
 		      fprintf(fd, "$version\n\tucsim\n$end\n$timescale ");
-                      if (timescale >= 1e15)
-                        fprintf(fd, "%.0ffs", timescale * 1e-15);
-                      else if (timescale >= 1e12)
-                        fprintf(fd, "%.0fps", timescale * 1e-12);
-                      else if (timescale >= 1e9)
-                        fprintf(fd, "%.0fns", timescale * 1e-9);
-                      else if (timescale >= 1e6)
-                        fprintf(fd, "%.0fus", timescale * 1e-6);
-                      else if (timescale >= 1e3)
-                        fprintf(fd, "%.0fms", timescale * 1e-3);
-                      else
-                        fprintf(fd, "%.0fms", timescale * 1e3);
+                      const char *unit;
+                      double period = period_of(timescale, unit);
+                      fprintf(fd, "%.0f%s", period, unit);
 
                       fprintf(fd, " $end\n$scope module %s $end\n", modul.c_str());
 
@@ -1169,16 +1179,9 @@ cl_vcd::print_info(class cl_console_base *con)
         con->dd_printf("  Time scale: auto set on start\n");
       else
         {
-          if (timescale >= 1e15)
-            con->dd_printf("  Time scale: %.0f fs\n", timescale * 1e-15);
-          else if (timescale >= 1e12)
-            con->dd_printf("  Time scale: %.0f ps\n", timescale * 1e-12);
-          else if (timescale >= 1e9)
-            con->dd_printf("  Time scale: %.0f ns\n", timescale * 1e-9);
-          else if (timescale >= 1e6)
-            con->dd_printf("  Time scale: %.0f us\n", timescale * 1e-6);
-          else
-            con->dd_printf("  Time scale: %.0f ms\n", timescale * 1e-3);
+          const char *unit;
+          double period = period_of(timescale, unit);
+          con->dd_printf("  Time scale: %.0f %s\n", period, unit);
         }
     }
 
-- 
2.43.0


From 32e7335a2f176b691593aae5e69ba4821bac6947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:36 +0000
Subject: [PATCH 116/119] fix: PicoBlaze: OUTPUTK lost half of its constant,
 STAR wrote wrong register, COMPARECY missed zero, FETCH and STORE reached
 behind RAM, names of CALL C and CALL Z swapped

---
 src/sims/pblaze.src/glob.cc |  4 ++--
 src/sims/pblaze.src/inst.cc | 12 +++++++-----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/sims/pblaze.src/glob.cc b/src/sims/pblaze.src/glob.cc
index 37f8a04..3c6d329 100644
--- a/src/sims/pblaze.src/glob.cc
+++ b/src/sims/pblaze.src/glob.cc
@@ -132,9 +132,9 @@ struct dis_entry_pblaze disass_pblaze6[]= {
   { 0x03000, 0x3f000, ' ', 1, "AND %r,%k", AND,     REG_CONSTANT },
 
   { 0x20000, 0x3f000, ' ', 1, "CALL %A", CALL,          ADDRESS12 },
-  { 0x30000, 0x3f000, ' ', 1, "CALL C %A", CALL_Z,        ADDRESS12 },
+  { 0x30000, 0x3f000, ' ', 1, "CALL Z %A", CALL_Z,        ADDRESS12 },
   { 0x34000, 0x3f000, ' ', 1, "CALL NZ %A", CALL_NZ,       ADDRESS12 },
-  { 0x38000, 0x3f000, ' ', 1, "CALL Z %A", CALL_C,        ADDRESS12 },
+  { 0x38000, 0x3f000, ' ', 1, "CALL C %A", CALL_C,        ADDRESS12 },
   { 0x3c000, 0x3f000, ' ', 1, "CALL NC %A", CALL_NC,       ADDRESS12 },
   { 0x24000, 0x3f00f, ' ', 1, "CALL@ (%r, %s)", CALL_AT,       REG_REG },
 
diff --git a/src/sims/pblaze.src/inst.cc b/src/sims/pblaze.src/inst.cc
index d1e7d85..a9b9bd6 100644
--- a/src/sims/pblaze.src/inst.cc
+++ b/src/sims/pblaze.src/inst.cc
@@ -297,7 +297,7 @@ cl_pblaze::inst_comparecy(uint code, int operands)
     return (resERROR);
   }
 
-  FLAGS_SET_Z((operand1 == (operand2 + FLAGS_GET_C)) && FLAGS_GET_Z);
+  FLAGS_SET_Z((operand1 == ((operand2 + FLAGS_GET_C) & 0xff)) && FLAGS_GET_Z);
   FLAGS_SET_C((operand2 + FLAGS_GET_C) > operand1);
 
   return(resGO);
@@ -318,7 +318,8 @@ cl_pblaze::inst_fetch(uint code, int operands)
     addr = get_constant(code);
   }
   else if (operands == REG_REG) {
-    addr = get_register(code, false)->get();
+    // RAM decodes low bits of the address only
+    addr = get_register(code, false)->get() & (ram_size-1);
   }
   else {
     fprintf(stderr, "FETCH: Unsupported operand type\n");
@@ -571,7 +572,7 @@ cl_pblaze::inst_outputk(uint code, int operands)
   u8_t port;
 
   if (operands == CONSTANT_PORT) {
-    constant = (code & 0x00ff0) >> 8;
+    constant = (code & 0x00ff0) >> 4;
     port = code & 0x0000f;
   }
   else {
@@ -785,7 +786,7 @@ cl_pblaze::inst_star(uint code, int operands)
 
   if (operands == REG_REG) {
     // getting register from inactive register bank
-    unsigned char reg_code = (code & 0x000f0) >> 4;
+    unsigned char reg_code = (code & 0x00f00) >> 8;
     if (active_regbank == REGISTER_BANK_A)
       reg_code += 0x10;
 
@@ -817,7 +818,8 @@ cl_pblaze::inst_store(uint code, int operands)
     addr = get_constant(code);
   }
   else if (operands == REG_REG) {
-    addr = get_register(code, false)->get();
+    // RAM decodes low bits of the address only
+    addr = get_register(code, false)->get() & (ram_size-1);
   }
   else {
     fprintf(stderr, "STORE: Unsupported operand type\n");
-- 
2.43.0


From c87e2756506f31f9c7bcfc02b0fe19c4367209d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:36 +0000
Subject: [PATCH 117/119] fix: PicoBlaze: return address did not wrap around,
 KCPSM6 went on after reset at stack overflow and underflow

---
 src/sims/pblaze.src/inst.cc  | 24 ++++++++++++++++--------
 src/sims/pblaze.src/stack.cc | 15 ++++++++++++++-
 2 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/sims/pblaze.src/inst.cc b/src/sims/pblaze.src/inst.cc
index a9b9bd6..5e13e8c 100644
--- a/src/sims/pblaze.src/inst.cc
+++ b/src/sims/pblaze.src/inst.cc
@@ -240,11 +240,13 @@ cl_pblaze::inst_call(uint code, int inst, int operands)
   }
 
   if (jump) {
-    if (stack_push(PC-1)) {
+    if (stack_push((PC-1) & PCmask)) {
       fprintf(stderr, "Call stack overflow.\n");
 
-      if (type->type == CPU_PBLAZE_6)
+      if (type->type == CPU_PBLAZE_6) {
         reset();
+        return (resGO);
+      }
       //return (resERROR);
     }
     PC = address;
@@ -490,12 +492,14 @@ cl_pblaze::inst_load_return(uint code, int operands)
     if (stack_pop(&addr)) {
       fprintf(stderr, "Call stack underflow.\n");
 
-      if (type->type == CPU_PBLAZE_6)
+      if (type->type == CPU_PBLAZE_6) {
         reset();
+        return (resGO);
+      }
 
       //return (resERROR);
     }
-    PC = addr+1;
+    PC = (addr+1) & PCmask;
   }
   else {
     fprintf(stderr, "LOAD&RETURN: Unsupported operand type\n");
@@ -638,12 +642,14 @@ cl_pblaze::inst_return(uint code, int inst)
     if (stack_pop(&addr)) {
       fprintf(stderr, "Call stack underflow.\n");
 
-      if (type->type == CPU_PBLAZE_6)
+      if (type->type == CPU_PBLAZE_6) {
         reset();
+        return (resGO);
+      }
 
       //return (resERROR);
     }
-    PC = addr+1;
+    PC = (addr+1) & PCmask;
   }
 
   return(resGO);
@@ -656,12 +662,14 @@ cl_pblaze::inst_returni(bool interrupt_enable)
   if (stack_pop(&addr)) {
     fprintf(stderr, "Call stack underflow.\n");
 
-    if (type->type == CPU_PBLAZE_6)
+    if (type->type == CPU_PBLAZE_6) {
       reset();
+      return (resGO);
+    }
 
     //return (resERROR);
   }
-  PC = addr+1;
+  PC = (addr+1) & PCmask;
 
   FLAGS_SET_C(interrupt->preserved_flag_c);
   FLAGS_SET_Z(interrupt->preserved_flag_z);
diff --git a/src/sims/pblaze.src/stack.cc b/src/sims/pblaze.src/stack.cc
index b26e157..ed1b3c8 100644
--- a/src/sims/pblaze.src/stack.cc
+++ b/src/sims/pblaze.src/stack.cc
@@ -32,9 +32,19 @@ cl_pblaze::stack_push(u32_t value) {
   cl_memory_cell *sp = sfr->get_cell(SP);
   int sp_value = sp->get();
 
+  // stack pointer of KCPSM6 is the number of used levels
+  if (type->type == CPU_PBLAZE_6 && sp_value >= (int)stack_size)
+    return true;
+
   stack->set(sp_value, value);
 
   sp_value++;
+  if (type->type == CPU_PBLAZE_6)
+    {
+      sp->set(sp_value);
+      return false;
+    }
+
   sp->set(sp_value % 31);
 
   if (sp_value > 30)
@@ -49,6 +59,9 @@ cl_pblaze::stack_pop(u32_t *value) {
   cl_memory_cell *sp = sfr->get_cell(SP);
   int sp_value = sp->get();
 
+  if (type->type == CPU_PBLAZE_6 && sp_value == 0)
+    return true;
+
   if (sp_value == 0)
     sp_value = 30;
   else
@@ -58,7 +71,7 @@ cl_pblaze::stack_pop(u32_t *value) {
 
   *value = stack->get(sp_value);
 
-  if (sp_value == 30)
+  if (type->type != CPU_PBLAZE_6 && sp_value == 30)
     return true;
   else
     return false;
-- 
2.43.0


From 3f7f112444b4d2c6127d51a816ae315c89ba46f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:36 +0000
Subject: [PATCH 118/119] fix: KCPSM6: interrupt did not select register bank A
 and RETURNI did not restore it

---
 src/sims/pblaze.src/inst.cc       | 2 ++
 src/sims/pblaze.src/interrupt.cc  | 2 ++
 src/sims/pblaze.src/interruptcl.h | 1 +
 src/sims/pblaze.src/pblaze.cc     | 7 ++++++-
 4 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/sims/pblaze.src/inst.cc b/src/sims/pblaze.src/inst.cc
index 5e13e8c..a6da50d 100644
--- a/src/sims/pblaze.src/inst.cc
+++ b/src/sims/pblaze.src/inst.cc
@@ -673,6 +673,8 @@ cl_pblaze::inst_returni(bool interrupt_enable)
 
   FLAGS_SET_C(interrupt->preserved_flag_c);
   FLAGS_SET_Z(interrupt->preserved_flag_z);
+  if (type->type == CPU_PBLAZE_6)
+    active_regbank = interrupt->preserved_regbank;
   FLAGS_SET_I(interrupt_enable);
 
   return (resGO);
diff --git a/src/sims/pblaze.src/interrupt.cc b/src/sims/pblaze.src/interrupt.cc
index 6cc2840..399974c 100644
--- a/src/sims/pblaze.src/interrupt.cc
+++ b/src/sims/pblaze.src/interrupt.cc
@@ -37,6 +37,8 @@ int
 cl_interrupt::init(void)
 {
   interrupt_request = false;
+  preserved_flag_c = preserved_flag_z = false;
+  preserved_regbank = REGISTER_BANK_A;
   return(0);
 }
 
diff --git a/src/sims/pblaze.src/interruptcl.h b/src/sims/pblaze.src/interruptcl.h
index 37c0659..d61a1d3 100644
--- a/src/sims/pblaze.src/interruptcl.h
+++ b/src/sims/pblaze.src/interruptcl.h
@@ -35,6 +35,7 @@ public:
   
   bool preserved_flag_c;
   bool preserved_flag_z;
+  int preserved_regbank;
 public:
   cl_interrupt(class cl_uc *auc);
   virtual int init(void);
diff --git a/src/sims/pblaze.src/pblaze.cc b/src/sims/pblaze.src/pblaze.cc
index e00c44b..315b17f 100644
--- a/src/sims/pblaze.src/pblaze.cc
+++ b/src/sims/pblaze.src/pblaze.cc
@@ -915,6 +915,7 @@ cl_pblaze::do_interrupt(void)
     //stack_push(PC);
     interrupt->preserved_flag_c = FLAGS_GET_C;
     interrupt->preserved_flag_z = FLAGS_GET_Z;
+    interrupt->preserved_regbank = active_regbank;
     FLAGS_SET_I(0);
     interrupt->interrupt_request = false;
 
@@ -929,8 +930,11 @@ cl_pblaze::do_interrupt(void)
 
     if (res != resGO)
       return(res);
-    else
+    else {
+      // handler uses registers of bank A
+      active_regbank = REGISTER_BANK_A;
       return(resINTERRUPT);
+    }
   }
 
   return(resGO);
@@ -1358,6 +1362,7 @@ cl_pblaze::init_uc_parameters(void)
   rom_size = 1024;
   ram_size = 64;
   interrupt_vector = 0x3ff;
+  hw_constant = 0;
 
   if (type->type == CPU_PBLAZE_3)
     stack_size = 31;
-- 
2.43.0


From 23ec2bf0f7a02c5853d54e208f016d3367acd57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:04:04 +0000
Subject: [PATCH 119/119] fix: ST7: N flag of shifts, NEG, SWAP and TNZ, flags
 of loads and MUL, C of NEG and of bit tests, indirect bit operations ignored
 their pointer, LD S lost the page of stack, addresses did not wrap around

---
 src/sims/st7.src/inst.cc | 84 +++++++++++++---------------------------
 src/sims/st7.src/st7.cc  |  7 ++--
 2 files changed, 31 insertions(+), 60 deletions(-)

diff --git a/src/sims/st7.src/inst.cc b/src/sims/st7.src/inst.cc
index e50673b..427cfb3 100644
--- a/src/sims/st7.src/inst.cc
+++ b/src/sims/st7.src/inst.cc
@@ -116,7 +116,7 @@ cl_st7::fetchea(t_mem code, unsigned char prefix)
       break;
   }
 //  printf("******************** fetchea() end - resaddr=0x%04x, PC=0x%04x\n", resaddr, PC);
-  return resaddr;
+  return resaddr & 0xffff;
 }
 
 
@@ -167,7 +167,7 @@ cl_st7::get_dest(t_mem code, unsigned char prefix)
       break;
   }
 //  printf("******************** get_dest() end - resaddr=0x%04x, PC=0x%04x\n", resaddr, PC);
-  return resaddr;
+  return resaddr & 0xffff;
 }
 
 /*****************************************************************************
@@ -250,6 +250,8 @@ int
 cl_st7::inst_bresbset(t_mem code, unsigned char prefix)
 {
   int ea = fetch();
+  if (prefix == 0x92) // short indirect - pointer
+    ea = get1( ea);
   unsigned char dbyte = get1( ea);
   
   if (code & 0x01) { // bres  
@@ -270,19 +272,23 @@ int
 cl_st7::inst_btjfbtjt(t_mem code, unsigned char prefix)
 {
   int ea = fetch();
+  if (prefix == 0x92) // short indirect - pointer
+    ea = get1( ea);
   unsigned char dbyte = get1( ea);
-  char reljump = fetch();
+  signed char reljump = fetch();
   
   if (code & 0x01) { // btjf  
 	char pos = (code - 0x01) >> 1;
+	FLAG_ASSIGN (BIT_C, dbyte & (1<<pos));
 	if(!( dbyte & (1<<pos))) {
-		PC += reljump;
+		PC = (PC + reljump) & 0xffff;
 	}
 	
   } else { // btjt
  	char pos = (code - 0x00) >> 1;
+	FLAG_ASSIGN (BIT_C, dbyte & (1<<pos));
 	if ( dbyte & (1<<pos)) {
-		PC += reljump;
+		PC = (PC + reljump) & 0xffff;
 	}
 	
   }
@@ -303,7 +309,7 @@ cl_st7::inst_call(t_mem code, unsigned char prefix)
 int
 cl_st7::inst_callr(t_mem code, unsigned char prefix)
 {
-   char newPC;
+   signed char newPC;
 
    if (prefix == 0x0) {
       newPC = fetch1();
@@ -314,7 +320,7 @@ cl_st7::inst_callr(t_mem code, unsigned char prefix)
    }
    
    push2(PC);
-   PC += newPC;
+   PC = (PC + newPC) & 0xffff;
 
    return(resGO);
 }
@@ -542,7 +548,7 @@ cl_st7::inst_jr(t_mem code, unsigned char prefix)
    }
 
   if (taken)
-    PC += ofs;
+    PC = (PC + ofs) & 0xffff;
 
   return(resGO);
 }
@@ -554,10 +560,8 @@ cl_st7::inst_ldxy(t_mem code, unsigned char prefix)
 
   operand = OPERAND(code, prefix);
 
-//  FLAG_ASSIGN (BIT_Z, (result & 0xff) == 0);
-//  FLAG_ASSIGN (BIT_C, 0x100 & result);
-//  FLAG_ASSIGN (BIT_N, 0x80 & result);
-//  FLAG_ASSIGN (BIT_H, 0x10 & (operand1 ^ operand2 ^ result));
+  FLAG_ASSIGN (BIT_Z, (operand & 0xff) == 0);
+  FLAG_ASSIGN (BIT_N, 0x80 & operand);
 
    if ((prefix == 0x90) || (prefix == 0x91)) {
      regs.Y = operand;
@@ -575,10 +579,8 @@ cl_st7::inst_lda(t_mem code, unsigned char prefix)
 
   operand = OPERAND(code, prefix);
 
-//  FLAG_ASSIGN (BIT_Z, (result & 0xff) == 0);
-//  FLAG_ASSIGN (BIT_C, 0x100 & result);
-//  FLAG_ASSIGN (BIT_N, 0x80 & result);
-//  FLAG_ASSIGN (BIT_H, 0x10 & (operand1 ^ operand2 ^ result));
+  FLAG_ASSIGN (BIT_Z, (operand & 0xff) == 0);
+  FLAG_ASSIGN (BIT_N, 0x80 & operand);
 
   regs.A = operand;
    
@@ -645,12 +647,8 @@ cl_st7::inst_neg(t_mem code, unsigned char prefix)
    operand++;
   
    FLAG_ASSIGN (BIT_Z, (operand & 0xff) == 0);
-   FLAG_ASSIGN (BIT_C, operand);
-   if (operand == 0x80) {
-	   FLAG_SET (BIT_N);
-   } else {
-      FLAG_CLEAR (BIT_N);
-   }
+   FLAG_ASSIGN (BIT_C, (operand & 0xff) != 0);
+   FLAG_ASSIGN (BIT_N, 0x80 & operand);
 
    if ((code&0xf0)==0x40) {
       regs.A = operand;
@@ -709,11 +707,7 @@ cl_st7::inst_rlc(t_mem code, unsigned char prefix)
   
    FLAG_ASSIGN (BIT_Z, (operand & 0xff) == 0);
    FLAG_ASSIGN (BIT_C, (operand & 0x100));
-   if (operand == 0x80) {
-	   FLAG_SET (BIT_N);
-   } else {
-      FLAG_CLEAR (BIT_N);
-   }
+   FLAG_ASSIGN (BIT_N, 0x80 & operand);
 
    if ((code&0xf0)==0x40) {
       regs.A = operand;
@@ -753,11 +747,7 @@ cl_st7::inst_rrc(t_mem code, unsigned char prefix)
   
    FLAG_ASSIGN (BIT_Z, (opres & 0xff) == 0);
    FLAG_ASSIGN (BIT_C, (operand & 0x1));
-   if (opres == 0x80) {
-	   FLAG_SET (BIT_N);
-   } else {
-      FLAG_CLEAR (BIT_N);
-   }
+   FLAG_ASSIGN (BIT_N, 0x80 & opres);
 
    if ((code&0xf0)==0x40) {
       regs.A = opres;
@@ -815,11 +805,7 @@ cl_st7::inst_sll(t_mem code, unsigned char prefix)
    
    FLAG_ASSIGN (BIT_Z, (opres & 0xff) == 0);
    FLAG_ASSIGN (BIT_C, (opres & 0x100));
-   if (opres == 0x80) {
-	   FLAG_SET (BIT_N);
-   } else {
-      FLAG_CLEAR (BIT_N);
-   }
+   FLAG_ASSIGN (BIT_N, 0x80 & opres);
 
    if ((code&0xf0)==0x40) {
       regs.A = opres;
@@ -859,11 +845,7 @@ cl_st7::inst_sra(t_mem code, unsigned char prefix)
   
    FLAG_ASSIGN (BIT_Z, (opres & 0xff) == 0);
    FLAG_ASSIGN (BIT_C, (operand & 0x1));
-   if (opres == 0x80) {
-	   FLAG_SET (BIT_N);
-   } else {
-      FLAG_CLEAR (BIT_N);
-   }
+   FLAG_ASSIGN (BIT_N, 0x80 & opres);
 
    if ((code&0xf0)==0x40) {
       regs.A = opres;
@@ -899,11 +881,7 @@ cl_st7::inst_srl(t_mem code, unsigned char prefix)
    
    FLAG_ASSIGN (BIT_Z, (opres & 0xff) == 0);
    FLAG_ASSIGN (BIT_C, (operand & 0x1));
-   if (opres == 0x80) {
-	   FLAG_SET (BIT_N);
-   } else {
-      FLAG_CLEAR (BIT_N);
-   }
+   FLAG_ASSIGN (BIT_N, 0x80 & opres);
 
    if ((code&0xf0)==0x40) {
       regs.A = opres;
@@ -958,11 +936,7 @@ cl_st7::inst_swap(t_mem code, unsigned char prefix)
    
    
    FLAG_ASSIGN (BIT_Z, (opres & 0xff) == 0);
-   if (opres == 0x80) {
-	   FLAG_SET (BIT_N);
-   } else {
-      FLAG_CLEAR (BIT_N);
-   }
+   FLAG_ASSIGN (BIT_N, 0x80 & opres);
 
    if ((code&0xf0)==0x40) {
       regs.A = opres;
@@ -995,11 +969,7 @@ cl_st7::inst_tnz(t_mem code, unsigned char prefix)
    }
    
    FLAG_ASSIGN (BIT_Z, (operand & 0xff) == 0);
-   if (operand == 0x80) {
-	   FLAG_SET (BIT_N);
-   } else {
-      FLAG_CLEAR (BIT_N);
-   }
+   FLAG_ASSIGN (BIT_N, 0x80 & operand);
 
    return(resGO);
 }
diff --git a/src/sims/st7.src/st7.cc b/src/sims/st7.src/st7.cc
index 980d317..4989c91 100644
--- a/src/sims/st7.src/st7.cc
+++ b/src/sims/st7.src/st7.cc
@@ -591,6 +591,7 @@ cl_st7::exec_inst(void)
             } else {
                return (resHALT);
             }
+            FLAG_CLEAR (BIT_H | BIT_C);
             return (resGO);
             break;
          case 0xA0:
@@ -681,9 +682,9 @@ cl_st7::exec_inst(void)
             break;
          case 0x90: // 
             if(cprefix==0) {
-               regs.SP = regs.X;
+               regs.SP = (regs.SP & 0xff00) | regs.X;
             }else if (cprefix == 0x90) {
-               regs.SP = regs.Y;
+               regs.SP = (regs.SP & 0xff00) | regs.Y;
             } else {
                return (resHALT);
             }
@@ -725,7 +726,7 @@ cl_st7::exec_inst(void)
             break;
          case 0x90: // 
             if(cprefix==0) {
-               regs.SP = regs.A;
+               regs.SP = (regs.SP & 0xff00) | regs.A;
             } else {
                return (resHALT);
             }
-- 
2.43.0

