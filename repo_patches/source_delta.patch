From 5c27e8665a168d813b7501d320bac3feb7d93371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:31 +0000
Subject: [PATCH 001/106] fix: zero the storage of every simulator object,
 initial state must not depend on heap contents

---
 src/core/utils.src/pobj.cc  | 19 +++++++++++++++++++
 src/core/utils.src/pobjcl.h |  6 +++++-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/core/utils.src/pobj.cc b/src/core/utils.src/pobj.cc
index 89dd9c9..7d57795 100644
--- a/src/core/utils.src/pobj.cc
+++ b/src/core/utils.src/pobj.cc
@@ -59,6 +59,25 @@ cl_base::cl_base(void)
 }
 
 
+/*
+ * Objects start with zeroed storage, so that the initial state of the
+ * simulated machine never depends on what the heap happens to contain
+ */
+
+void *
+cl_base::operator new(size_t size)
+{
+  void *p= ::operator new(size);
+  memset(p, 0, size);
+  return p;
+}
+
+void
+cl_base::operator delete(void *p)
+{
+  ::operator delete(p);
+}
+
 /*
  * Destructing the object: calling the virtual Done method
  */
diff --git a/src/core/utils.src/pobjcl.h b/src/core/utils.src/pobjcl.h
index 7bf5cda..a82b184 100644
--- a/src/core/utils.src/pobjcl.h
+++ b/src/core/utils.src/pobjcl.h
@@ -28,6 +28,8 @@ Software Foundation, 59 Temple Place - Suite 330, Boston, MA
 #ifndef POBJ_HEADER
 #define POBJ_HEADER
 
+#include <stddef.h>
+
 #include "ddconfig.h"
 
 #include "pobjt.h"
@@ -59,7 +61,9 @@ private:
 public:
   cl_base(void);
   virtual ~cl_base(void);
-
+  static void *operator new(size_t size);
+  static void operator delete(void *p);
+  
   virtual int init(void);
   virtual const char *get_name(void) const { return(name); }
   virtual const char *get_name(const char *def) const;
-- 
2.43.0


From b1f429b6c436a7732f27d5831506caa2a626a6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:31 +0000
Subject: [PATCH 002/106] fix: chips wider than 8 bits must not be cl_chip8
 (pblaze stack, oisc rom): half of their cells was never initialised

---
 src/sims/oisc.src/oisc.cc     | 2 +-
 src/sims/pblaze.src/pblaze.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/oisc.src/oisc.cc b/src/sims/oisc.src/oisc.cc
index 17ea62b..23346df 100644
--- a/src/sims/oisc.src/oisc.cc
+++ b/src/sims/oisc.src/oisc.cc
@@ -112,7 +112,7 @@ cl_oisc::make_memories(void)
   as->init();
   address_spaces->add(as);
 
-  chip= new cl_chip8("rom_chip", 0x10000, 16, 0);
+  chip= new cl_chip16("rom_chip", 0x10000, 16, 0);
   chip->init();
   memchips->add(chip);
   ad= new cl_address_decoder(as= rom,
diff --git a/src/sims/pblaze.src/pblaze.cc b/src/sims/pblaze.src/pblaze.cc
index e5dc5f0..bd29771 100644
--- a/src/sims/pblaze.src/pblaze.cc
+++ b/src/sims/pblaze.src/pblaze.cc
@@ -226,7 +226,7 @@ cl_pblaze::make_memories(void)
   ad->activate(0);
 
   // stack chip
-  chip = new cl_chip8("stack_chip", stack_size, 12);
+  chip = new cl_chip16("stack_chip", stack_size, 12);
   chip->init();
   memchips->add(chip);
   ad= new cl_address_decoder(as = address_space(MEM_STACK_ID), chip, 0, stack_size-1, 0);
-- 
2.43.0


From 9fb1a26cff846f41fdadfe4c078145f5cf3f4502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 003/106] fix: the XA simulator never set its cpu table and
 could not start

---
 src/sims/xa.src/sxa.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims/xa.src/sxa.cc b/src/sims/xa.src/sxa.cc
index 7ec770f..90baed0 100644
--- a/src/sims/xa.src/sxa.cc
+++ b/src/sims/xa.src/sxa.cc
@@ -43,6 +43,7 @@ main(int argc, char *argv[])
   class cl_sim *sim;
 
   app_start_at= dnow();
+  cpus= cpus_xa;
   application= new cl_app();
   application->set_name("sxa");
   application->init(argc, argv);
-- 
2.43.0


From 4a1f7c759aff1d6fe851d46da70afa0ea7fea65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:31 +0000
Subject: [PATCH 004/106] fix: clear the default cpu type entry, conf printed
 its uninitialised help text

---
 src/sims/avr.src/avr.cc   | 2 +-
 src/sims/pdk.src/pdk13.cc | 2 +-
 src/sims/pdk.src/pdk14.cc | 2 +-
 src/sims/pdk.src/pdk15.cc | 2 +-
 src/sims/pdk.src/pdk16.cc | 2 +-
 src/sims/st7.src/st7.cc   | 2 +-
 src/sims/xa.src/xa.cc     | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/sims/avr.src/avr.cc b/src/sims/avr.src/avr.cc
index 7e3e3ca..64bd8a2 100644
--- a/src/sims/avr.src/avr.cc
+++ b/src/sims/avr.src/avr.cc
@@ -121,7 +121,7 @@ static struct name_entry sfr_tabl[]= {
 cl_avr::cl_avr(class cl_sim *asim):
   cl_uc(asim)
 {
-  type= (struct cpu_entry *)malloc(sizeof(struct cpu_entry));
+  type= (struct cpu_entry *)calloc(1, sizeof(struct cpu_entry));
   type->type= CPU_AVR;
   sleep_executed= 0;
 }
diff --git a/src/sims/pdk.src/pdk13.cc b/src/sims/pdk.src/pdk13.cc
index a896d50..5d654d1 100644
--- a/src/sims/pdk.src/pdk13.cc
+++ b/src/sims/pdk.src/pdk13.cc
@@ -38,7 +38,7 @@ Software Foundation, 59 Temple Place - Suite 330, Boston, MA
 cl_fpp13::cl_fpp13(int aid, class cl_pdk *the_puc, class cl_sim *asim):
   cl_fpp(aid, the_puc, asim)
 {
-  type= (struct cpu_entry*)malloc(sizeof(struct cpu_entry));
+  type= (struct cpu_entry*)calloc(1, sizeof(struct cpu_entry));
   type->type= CPU_PDK13;
 }
 
diff --git a/src/sims/pdk.src/pdk14.cc b/src/sims/pdk.src/pdk14.cc
index 7ec811c..5adf55e 100644
--- a/src/sims/pdk.src/pdk14.cc
+++ b/src/sims/pdk.src/pdk14.cc
@@ -38,7 +38,7 @@ Software Foundation, 59 Temple Place - Suite 330, Boston, MA
 cl_fpp14::cl_fpp14(int aid, class cl_pdk *the_puc, class cl_sim *asim):
   cl_fpp13(aid, the_puc, asim)
 {
-  type= (struct cpu_entry*)malloc(sizeof(struct cpu_entry));
+  type= (struct cpu_entry*)calloc(1, sizeof(struct cpu_entry));
   type->type= CPU_PDK14;
 }
 
diff --git a/src/sims/pdk.src/pdk15.cc b/src/sims/pdk.src/pdk15.cc
index 4bfa185..0511d20 100644
--- a/src/sims/pdk.src/pdk15.cc
+++ b/src/sims/pdk.src/pdk15.cc
@@ -38,7 +38,7 @@ Software Foundation, 59 Temple Place - Suite 330, Boston, MA
 cl_fpp15::cl_fpp15(int aid, class cl_pdk *the_puc, class cl_sim *asim):
   cl_fpp14(aid, the_puc, asim)
 {
-  type= (struct cpu_entry*)malloc(sizeof(struct cpu_entry));
+  type= (struct cpu_entry*)calloc(1, sizeof(struct cpu_entry));
   type->type= CPU_PDK15;
 }
 
diff --git a/src/sims/pdk.src/pdk16.cc b/src/sims/pdk.src/pdk16.cc
index ccaa93b..1fb9f76 100644
--- a/src/sims/pdk.src/pdk16.cc
+++ b/src/sims/pdk.src/pdk16.cc
@@ -38,7 +38,7 @@ Software Foundation, 59 Temple Place - Suite 330, Boston, MA
 cl_fpp16::cl_fpp16(int aid, class cl_pdk *the_puc, class cl_sim *asim):
   cl_fpp15(aid, the_puc, asim)
 {
-  type= (struct cpu_entry*)malloc(sizeof(struct cpu_entry));
+  type= (struct cpu_entry*)calloc(1, sizeof(struct cpu_entry));
   type->type= CPU_PDK16;
 }
 
diff --git a/src/sims/st7.src/st7.cc b/src/sims/st7.src/st7.cc
index e211641..7b4f4d0 100644
--- a/src/sims/st7.src/st7.cc
+++ b/src/sims/st7.src/st7.cc
@@ -61,7 +61,7 @@ Software Foundation, 59 Temple Place - Suite 330, Boston, MA
 cl_st7::cl_st7(class cl_sim *asim):
   cl_uc(asim)
 {
-  type= (struct cpu_entry *)malloc(sizeof(struct cpu_entry));
+  type= (struct cpu_entry *)calloc(1, sizeof(struct cpu_entry));
   type->type= CPU_ST7;
 }
 
diff --git a/src/sims/xa.src/xa.cc b/src/sims/xa.src/xa.cc
index c14dd40..9639c5c 100644
--- a/src/sims/xa.src/xa.cc
+++ b/src/sims/xa.src/xa.cc
@@ -231,7 +231,7 @@ static struct name_entry bit_tabXA51[]=
 cl_xa::cl_xa(class cl_sim *asim):
   cl_uc(asim)
 {
-  type= (struct cpu_entry *)malloc(sizeof(struct cpu_entry));
+  type= (struct cpu_entry *)calloc(1, sizeof(struct cpu_entry));
   type->type= CPU_XA;
 }
 
-- 
2.43.0


From e2fb585b377257dc9acd376e36ab39ca57e3246f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:06 +0000
Subject: [PATCH 005/106] fix: HC11 IDIV/FDIV took the remainder by the
 quotient, and crashed the simulator when that was 0

---
 src/core/motorola.src/m68hc11.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/core/motorola.src/m68hc11.cc b/src/core/motorola.src/m68hc11.cc
index b6b7e1f..18a7734 100644
--- a/src/core/motorola.src/m68hc11.cc
+++ b/src/core/motorola.src/m68hc11.cc
@@ -651,8 +651,10 @@ CL11::IDIV(t_mem code)
     }
   else
     {
-      cX.W(q= rD/rX);
-      cD.W(r= rD%rX);
+      q= rD/rX;
+      r= rD%rX;
+      cX.W(q);
+      cD.W(r);
     }
   if (!q) f|= flagZ;
   cF.W(f);
@@ -675,8 +677,10 @@ CL11::FDIV(t_mem code)
     }
   else
     {
-      cX.W(q= n/rX);
-      cD.W(r= n%rX);
+      q= n/rX;
+      r= n%rX;
+      cX.W(q);
+      cD.W(r);
     }
   if (!q) f|= flagZ;
   cF.W(f);
-- 
2.43.0


From 0e864483a77e123f8751a8709357f443b773f330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 006/106] fix: signed 32/16 division overflow (HC12 EDIVS, 88x
 MDU) crashed the simulator with SIGFPE

---
 src/sims/m68hc12.src/ialu.cc | 7 ++++---
 src/sims/s51.src/mdu.cc      | 6 +++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/sims/m68hc12.src/ialu.cc b/src/sims/m68hc12.src/ialu.cc
index da3c91e..5a8e4cb 100644
--- a/src/sims/m68hc12.src/ialu.cc
+++ b/src/sims/m68hc12.src/ialu.cc
@@ -314,11 +314,12 @@ CL12::edivs(void)
   u8_t f= rF&~(flagN|flagZ|flagV|flagC);
   if (rX != 0)
     {
-      q= op1 / (i16_t)rX;
-      r= op1 % (i16_t)rX;
+      i64_t l= (i64_t)op1 / (i16_t)rX; // -2^31 / -1 does not fit in 32 bits
+      q= (i32_t)l;
+      r= (i64_t)op1 % (i16_t)rX;
       if (q&0x8000) f|= flagN;
       if (!q) f|= flagZ;
-      if ((q > 32767) || (q < -32768))
+      if ((l > 32767) || (l < -32768))
 	f|= flagV;
       cY.W(q);
       cD.W(r);
diff --git a/src/sims/s51.src/mdu.cc b/src/sims/s51.src/mdu.cc
index 8168f17..dcb4730 100644
--- a/src/sims/s51.src/mdu.cc
+++ b/src/sims/s51.src/mdu.cc
@@ -515,14 +515,14 @@ cl_mdu88x::op_32sdiv16(void)
 {
   i32_t dend= v[3]*256*256*256 + v[2]*256*256 + v[1]*256 + v[0];
   i16_t dor= v[5]*256 + v[4];
-  i32_t quo= 0;
+  i64_t quo= 0;			// -2^31 / -1 does not fit in 32 bits
   i16_t rem= 0;
   if (dor == 0)
     set_ovr(true);
   else
     {
-      quo= dend / dor;
-      rem= dend % dor;
+      quo= (i64_t)dend / dor;
+      rem= (i64_t)dend % dor;
       set_ovr(false);
       //printf("\nSIM %d/%d=%d,%d %x,%x\n", dend, dor, quo, rem, quo, rem);
     }
-- 
2.43.0


From 1a2e7f4eb64777ac3501a437e8b074faf22e5223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:37 +0000
Subject: [PATCH 007/106] fix: disassembly, register print and hole must not
 read memory through the hardware (side effects on inspected machine)

---
 src/core/cmd.src/cmd_uc.cc        |   2 +-
 src/core/motorola.src/m6800.cc    |  20 +++---
 src/core/motorola.src/m68hc11.cc  |  18 ++---
 src/sims/f8.src/disass.cc         |  36 +++++-----
 src/sims/f8.src/f8.cc             |   2 +-
 src/sims/i8048.src/i8020.cc       |  10 +--
 src/sims/i8048.src/i8048.cc       |   2 +-
 src/sims/i8085.src/i8080.cc       |  26 +++----
 src/sims/i8085.src/i8085.cc       |   4 +-
 src/sims/m68hc12.src/dis.cc       | 116 +++++++++++++++---------------
 src/sims/m68hc12.src/m68hc12.cc   |   8 +--
 src/sims/mos6502.src/mos6502.cc   |  90 +++++++++++------------
 src/sims/mos6502.src/mos65ce02.cc |   2 +-
 src/sims/oisc.src/em.cc           |   2 +-
 src/sims/oisc.src/misc16.cc       |   6 +-
 src/sims/oisc.src/oisc.cc         |   8 +--
 src/sims/oisc.src/urisc.cc        |   2 +-
 src/sims/rxk.src/r3ka.cc          |  10 +--
 src/sims/rxk.src/r4k.cc           |  16 ++---
 src/sims/rxk.src/r6k.cc           |   6 +-
 src/sims/rxk.src/rxk.cc           |  74 +++++++++----------
 src/sims/s51.src/uc51.cc          |   8 +--
 src/sims/stm8.src/stm8.cc         |   4 +-
 src/sims/tlcs.src/t870c.cc        |  28 ++++----
 src/sims/tlcs.src/t870c1.cc       |  26 +++----
 src/sims/z80.src/gb80.cc          |   8 +--
 src/sims/z80.src/z80.cc           |  44 ++++++------
 27 files changed, 289 insertions(+), 289 deletions(-)

diff --git a/src/core/cmd.src/cmd_uc.cc b/src/core/cmd.src/cmd_uc.cc
index ed2e3c4..8187a1d 100644
--- a/src/core/cmd.src/cmd_uc.cc
+++ b/src/core/cmd.src/cmd_uc.cc
@@ -780,7 +780,7 @@ COMMAND_DO_WORK_UC(cl_hole_cmd)
       //	     l, h, a, v);
       for (ad= l; ad <= h; ad++)
 	{
-	  mv= m->read(ad);
+	  mv= m->get(ad);
 	  if (!in && (mv==v))
 	    {
 	      // found start
diff --git a/src/core/motorola.src/m6800.cc b/src/core/motorola.src/m6800.cc
index 629d145..4aba681 100644
--- a/src/core/motorola.src/m6800.cc
+++ b/src/core/motorola.src/m6800.cc
@@ -371,7 +371,7 @@ cl_m6800::disassc(t_addr addr, chars *comment)
   if (dis_e->mnemonic == NULL)
     return strdup("-- UNKNOWN/INVALID");
   b= dis_e->mnemonic;
-  u8_t code= rom->read(addr);
+  u8_t code= rom->get(addr);
   if (code == 0x18) { addr++; }
   if (code == 0x1a) { addr++; }
   if (code == 0xcd) { addr++; }
@@ -394,40 +394,40 @@ cl_m6800::disassc(t_addr addr, chars *comment)
 	  switch (b[i])
 	    {
 	    case 'x': case 'X': // indexed
-	      h= rom->read(++addr);
+	      h= rom->get(++addr);
 	      a= cI->get()+h;
 	      work.appendf("$%02x,%s", h, cI->name.c_str());
 	      //add_spaces(&work, 20);
 	      if (b[i]=='x')
-		temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+		temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      else
 		temp.appendf("; [$%04x]=$%04x", a, read_addr(rom, a));
 	      break;
 	    case 'e': case 'E': // extended
-	      h= rom->read(++addr);
-	      l= rom->read(++addr);
+	      h= rom->get(++addr);
+	      l= rom->get(++addr);
 	      a= h*256 + l;
 	      work.appendf("$%04x", a);
 	      //add_spaces(&work, 20);
 	      if (b[i]=='e')
-		temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+		temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      else
 		temp.appendf("; [$%04x]=$%04x", a,
 			     read_addr(rom, a));
 	      break;
 	    case 'd': case 'D': // direct
-	      h= a= rom->read(++addr);
+	      h= a= rom->get(++addr);
 	      work.appendf("$00%02x", h);
 	      //add_spaces(&work, 20);
 	      if (b[i]=='d')
-		temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+		temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      else
 	        temp.appendf("; [$%04x]=$%04x", a,
 			     read_addr(rom, a));
 	      break;
 	    case 'b': // immediate 8 bit
 	      work.appendf("#$%02x",
-			   rom->read(++addr));
+			   rom->get(++addr));
 	      break;
 	    case 'B': // immediate 16 bit
 	      work.appendf("#$%04x",
@@ -435,7 +435,7 @@ cl_m6800::disassc(t_addr addr, chars *comment)
 	      break;
 	    case 'r': // relative
 	      work.appendf("$%04x",
-			   (addr+2+(i8_t)(rom->read(addr+1))) & 0xffff );
+			   (addr+2+(i8_t)(rom->get(addr+1))) & 0xffff );
 	      addr++;
 	      break;
 	    }
diff --git a/src/core/motorola.src/m68hc11.cc b/src/core/motorola.src/m68hc11.cc
index 18a7734..fc61f73 100644
--- a/src/core/motorola.src/m68hc11.cc
+++ b/src/core/motorola.src/m68hc11.cc
@@ -352,40 +352,40 @@ cl_m68hc11::disassc(t_addr addr, chars *comment)
 	  switch (b[i])
 	    {
 	    case 'x': case 'X': // indexed
-	      h= rom->read(addr+1);
+	      h= rom->get(addr+1);
 	      a= rX+h;
 	      work.appendf("$%02x,X", h);
 	      //add_spaces(&work, 20);
 	      if (b[i]=='x')
-		temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+		temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      else
 		temp.appendf("; [$%04x]=$%04x", a, read_addr(rom, a));
 	      break;
 	    case 'e': case 'E': // extended
-	      h= rom->read(addr+1);
-	      l= rom->read(addr+2);
+	      h= rom->get(addr+1);
+	      l= rom->get(addr+2);
 	      a= h*256 + l;
 	      work.appendf("$%04x", a);
 	      //add_spaces(&work, 20);
 	      if (b[i]=='e')
-		temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+		temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      else
 		temp.appendf("; [$%04x]=$%04x", a,
 			     read_addr(rom, a));
 	      break;
 	    case 'd': case 'D': // direct
-	      h= a= rom->read(addr+1);
+	      h= a= rom->get(addr+1);
 	      work.appendf("$00%02x", h);
 	      //add_spaces(&work, 20);
 	      if (b[i]=='d')
-		temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+		temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      else
 	        temp.appendf("; [$%04x]=$%04x", a,
 			     read_addr(rom, a));
 	      break;
 	    case 'b': // immediate 8 bit
 	      work.appendf("#$%02x",
-			   rom->read(addr+1));
+			   rom->get(addr+1));
 	      break;
 	    case 'B': // immediate 16 bit
 	      work.appendf("#$%04x",
@@ -393,7 +393,7 @@ cl_m68hc11::disassc(t_addr addr, chars *comment)
 	      break;
 	    case 'r': // relative
 	      work.appendf("$%04x",
-			   (addr+2+(i8_t)(rom->read(addr+1))) & 0xffff );
+			   (addr+2+(i8_t)(rom->get(addr+1))) & 0xffff );
 	      break;
 	    }
 	  //work+= temp;
diff --git a/src/sims/f8.src/disass.cc b/src/sims/f8.src/disass.cc
index 638c336..84c4a71 100644
--- a/src/sims/f8.src/disass.cc
+++ b/src/sims/f8.src/disass.cc
@@ -167,7 +167,7 @@ cl_f8::disassc(t_addr addr, chars *comment)
   u16_t a, nn;
   i16_t d;
   
-  code= rom->read(addr);
+  code= rom->get(addr);
   while (code == PREF_SWAPOP || code == PREF_ALT1 || code == PREF_ALT2 || code == PREF_ALT3 || code == PREF_ALT4 || code == PREF_ALT5)
     {
       switch (code) {
@@ -190,10 +190,10 @@ cl_f8::disassc(t_addr addr, chars *comment)
         prefs = P_ALT5;
         break;
       }
-      code= rom->read(++addr);
+      code= rom->get(++addr);
     }
   de= get_dis_entry(addr);
-  //code= rom->read(addr);
+  //code= rom->get(addr);
   
   if (!de || !de->mnemonic)
     return strdup("-- UNKNOWN/INVALID");
@@ -225,7 +225,7 @@ cl_f8::disassc(t_addr addr, chars *comment)
 	    word->append("'");
 	  if (strcmp(fmt.c_str(), "i8") == 0)
 	    {
-	      word->appendf("0x%02x", rom->read(addr+1));
+	      word->appendf("0x%02x", rom->get(addr+1));
 	    }
 	  if (strcmp(fmt.c_str(), "i16") == 0)
 	    {
@@ -240,7 +240,7 @@ cl_f8::disassc(t_addr addr, chars *comment)
 	    {
 	      a= read_addr(rom, addr+1);
 	      word->appendf("0x%04x", a);
-	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->read(a));
+	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->get(a));
 	    }
 	  if (strcmp(fmt.c_str(), "a16_16") == 0)
 	    {
@@ -255,21 +255,21 @@ cl_f8::disassc(t_addr addr, chars *comment)
 	      if (bc && bc>='0' && bc<='7') b= bc-'0';
 	      a= read_addr(rom, addr+1);
 	      word->appendf("0x%04x", a);
-	      l= rom->read(a);
+	      l= rom->get(a);
 	      h= l&(1<<b);
 	      comment->appendf("; [0x%04x]= 0x%02x.%d=%d", a, l, b, h?1:0);
 	    }
 	  if (strcmp(fmt.c_str(), "nsp_8") == 0)
 	    {
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      a= rSP+l;
 	      a&= 0xffff;
 	      word->appendf("0x%02x,sp", l);
-	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->read(a));
+	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->get(a));
 	    }
 	  if (strcmp(fmt.c_str(), "nsp_16") == 0)
 	    {
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      a= rSP+l;
 	      a&= 0xffff;
 	      word->appendf("0x%02x,sp", l);
@@ -281,7 +281,7 @@ cl_f8::disassc(t_addr addr, chars *comment)
 	      a= nn+rZ;
 	      a&= 0xffff;
 	      word->appendf("0x%04x,z", nn);
-	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->read(a));
+	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->get(a));
 	    }
 	  if (strcmp(fmt.c_str(), "nnz_16") == 0)
 	    {
@@ -296,7 +296,7 @@ cl_f8::disassc(t_addr addr, chars *comment)
 	      a= rZ;
 	      a&= 0xffff;
 	      word->appendf("z");
-	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->read(a));
+	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->get(a));
 	    }
 	  if (strcmp(fmt.c_str(), "z_16") == 0)
 	    {
@@ -309,7 +309,7 @@ cl_f8::disassc(t_addr addr, chars *comment)
 	    {
 	      a= rY;
 	      word->appendf("y");
-	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->read(a));
+	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->get(a));
 	    }
 	  if (strcmp(fmt.c_str(), "y_16") == 0)
 	    {
@@ -319,15 +319,15 @@ cl_f8::disassc(t_addr addr, chars *comment)
 	    }
 	  if (strcmp(fmt.c_str(), "ny_8") == 0)
 	    {
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      a= rY+l;
 	      a&= 0xffff;
 	      word->appendf("0x%02x,y", l);
-	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->read(a));
+	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->get(a));
 	    }
 	  if (strcmp(fmt.c_str(), "ny_16") == 0)
 	    {
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      a= rY+l;
 	      a&= 0xffff;
 	      word->appendf("0x%02x,sp", l);
@@ -335,7 +335,7 @@ cl_f8::disassc(t_addr addr, chars *comment)
 	    }
 	  if (strcmp(fmt.c_str(), "nA_16") == 0)
 	    {
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      a= a16(prefs)+l;
 	      a&= 0xffff;
 	      word->appendf("0x%02x,%s", l, a16_name(prefs));
@@ -379,13 +379,13 @@ cl_f8::disassc(t_addr addr, chars *comment)
 	      break;
 
 	    case 'd':
-	      d= rom->read(addr+1);
+	      d= rom->get(addr+1);
 	      if (d&0x80) d|= 0xff00;
 	      word->appendf("%+d", d);
 	      break;
 
 	    case 'r':
-	      d= rom->read(addr+1);
+	      d= rom->get(addr+1);
 	      if (d&0x80) d|= 0xff00;
 	      a= addr+2+d;
 	      word->appendf("0x%04x", a);
diff --git a/src/sims/f8.src/f8.cc b/src/sims/f8.src/f8.cc
index 44a30df..db33011 100644
--- a/src/sims/f8.src/f8.cc
+++ b/src/sims/f8.src/f8.cc
@@ -168,7 +168,7 @@ cl_f8::print_regs(class cl_console_base *con)
       t_addr al;
       al= (rSP+i)&0xffff;
       con->dd_cprintf("dump_number", " %02x",
-		      (u8_t)(rom->read(al)));
+		      (u8_t)(rom->get(al)));
     }
   con->dd_printf("\n");
   
diff --git a/src/sims/i8048.src/i8020.cc b/src/sims/i8048.src/i8020.cc
index e985e03..094f73c 100644
--- a/src/sims/i8048.src/i8020.cc
+++ b/src/sims/i8048.src/i8020.cc
@@ -371,7 +371,7 @@ cl_i8020::disassc(t_addr addr, chars *comment)
   u16_t a;
 
   de= get_dis_entry(addr);
-  code= rom->read(addr);
+  code= rom->get(addr);
   
   if (!de || !de->mnemonic)
     return strdup("-- UNKNOWN/INVALID");
@@ -398,18 +398,18 @@ cl_i8020::disassc(t_addr addr, chars *comment)
 	    work.append("'");
 	  if (strcmp(fmt.c_str(), "i8") == 0)
 	    {
-	      work.appendf("#0x%02x", rom->read(addr+1));
+	      work.appendf("#0x%02x", rom->get(addr+1));
 	    }
 	  if (strcmp(fmt.c_str(), "a8") == 0)
 	    {
 	      a= addr & 0xf00;
-	      a|= rom->read(addr+1);
+	      a|= rom->get(addr+1);
 	      work.appendf("0x%04x", a);
 	    }
 	  if (strcmp(fmt.c_str(), "a11") == 0)
 	    {
 	      a= (code&0xe0)<<3;
-	      a+= rom->read(addr+1);
+	      a+= rom->get(addr+1);
 	      work.appendf("P.0x%04x", a);
 	      if (A11) a|= 0x800;
 	      temp.format("; %04x", a);
@@ -483,7 +483,7 @@ cl_i8020::print_regs(class cl_console_base *con)
   stop= psw&7;
   for (i= 7; i>=0; i--)
     {
-      dp= iram->read(start+2*i+1) * 256 + iram->read(start+2*i);
+      dp= iram->get(start+2*i+1) * 256 + iram->get(start+2*i);
       con->dd_cprintf("dump_address", " %x", dp>>12);
       if (i<stop)
 	con->dd_color("dump_address");
diff --git a/src/sims/i8048.src/i8048.cc b/src/sims/i8048.src/i8048.cc
index ea55699..9b06d49 100644
--- a/src/sims/i8048.src/i8048.cc
+++ b/src/sims/i8048.src/i8048.cc
@@ -325,7 +325,7 @@ cl_i8048::print_regs(class cl_console_base *con)
   stop= psw&7;
   for (i= 7; i>=0; i--)
     {
-      dp= iram->read(start+2*i+1) * 256 + iram->read(start+2*i);
+      dp= iram->get(start+2*i+1) * 256 + iram->get(start+2*i);
       con->dd_cprintf("dump_address", " %x", dp>>12);
       if (i<stop)
 	con->dd_color("dump_address");
diff --git a/src/sims/i8085.src/i8080.cc b/src/sims/i8085.src/i8080.cc
index 7d39cef..8a1ee76 100644
--- a/src/sims/i8085.src/i8080.cc
+++ b/src/sims/i8085.src/i8080.cc
@@ -226,7 +226,7 @@ const char *srp_names[4]= {
 void
 cl_i8080::dis_M(chars *comment)
 {
-  u8_t m= rM;
+  u8_t m= rom->get(rHL);
   if (comment->empty())
     *comment= "; ";
   comment->appendf("[0x%04x]= 0x%02x", rHL, m);
@@ -245,7 +245,7 @@ cl_i8080::dis_rp8(chars *comment, int rp)
     }
   if (comment->empty())
     *comment= "; ";
-  comment->appendf("[0x%04x]= 0x%02x", a, rom->read(a));
+  comment->appendf("[0x%04x]= 0x%02x", a, rom->get(a));
 }
 
 void
@@ -276,7 +276,7 @@ cl_i8080::disassc(t_addr addr, chars *comment)
   u16_t a;
 
   de= get_dis_entry(addr);
-  code= rom->read(addr);
+  code= rom->get(addr);
   
   if (!de || !de->mnemonic)
     return strdup("-- UNKNOWN/INVALID");
@@ -313,19 +313,19 @@ cl_i8080::disassc(t_addr addr, chars *comment)
 	    }
 	  if (strcmp(fmt.c_str(), "i8") == 0)
 	    {
-	      work.appendf("0x%02x", rom->read(addr+1));
+	      work.appendf("0x%02x", rom->get(addr+1));
 	    }
 	  if (strcmp(fmt.c_str(), "hli8") == 0)
 	    {
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      work.appendf("0x%02x", l);
-	      comment->appendf("; [0x%04x]= 0x%02x", rHL+l, rom->read(rHL+l));
+	      comment->appendf("; [0x%04x]= 0x%02x", rHL+l, rom->get(rHL+l));
 	    }
 	  if (strcmp(fmt.c_str(), "spi8") == 0)
 	    {
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      work.appendf("0x%02x", l);
-	      comment->appendf("; [0x%04x]= 0x%02x", rSP+l, rom->read(rSP+l));
+	      comment->appendf("; [0x%04x]= 0x%02x", rSP+l, rom->get(rSP+l));
 	    }
 	  if (strcmp(fmt.c_str(), "i16") == 0)
 	    {
@@ -360,7 +360,7 @@ cl_i8080::disassc(t_addr addr, chars *comment)
 	    {
 	      a= read_addr(rom, addr+1);
 	      work.appendf("0x%04x", a);
-	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->read(a));
+	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->get(a));
 	    }
 	  if (strcmp(fmt.c_str(), "a16_16") == 0)
 	    {
@@ -380,12 +380,12 @@ cl_i8080::disassc(t_addr addr, chars *comment)
 	    }
 	  if (strcmp(fmt.c_str(), "in") == 0)
 	    {
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      work.appendf("0x%02x", l);
 	    }
 	  if (strcmp(fmt.c_str(), "out") == 0)
 	    {
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      work.appendf("0x%02x", l);
 	    }
 	  continue;
@@ -435,8 +435,8 @@ cl_i8080::print_regs(class cl_console_base *con)
       al= (rSP+i)&0xffff;
       ah= (al+1)&0xffff;
       con->dd_cprintf("dump_number", " %02x%02x",
-		      (u8_t)(rom->read(al)),
-		      (u8_t)(rom->read(ah)));
+		      (u8_t)(rom->get(al)),
+		      (u8_t)(rom->get(ah)));
     }
   con->dd_printf("\n");
   
diff --git a/src/sims/i8085.src/i8085.cc b/src/sims/i8085.src/i8085.cc
index 6c63c08..6d1485e 100644
--- a/src/sims/i8085.src/i8085.cc
+++ b/src/sims/i8085.src/i8085.cc
@@ -178,8 +178,8 @@ cl_i8085::print_regs(class cl_console_base *con)
       al= (rSP+i)&0xffff;
       ah= (al+1)&0xffff;
       con->dd_cprintf("dump_number", " %02x%02x",
-		      (u8_t)(rom->read(al)),
-		      (u8_t)(rom->read(ah)));
+		      (u8_t)(rom->get(al)),
+		      (u8_t)(rom->get(ah)));
     }
   con->dd_printf("\n");
   
diff --git a/src/sims/m68hc12.src/dis.cc b/src/sims/m68hc12.src/dis.cc
index d9a207e..c5fcfc7 100644
--- a/src/sims/m68hc12.src/dis.cc
+++ b/src/sims/m68hc12.src/dis.cc
@@ -75,7 +75,7 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
   int i;
   bool first;
 
-  if (rom->read(addr) == 0x04)
+  if (rom->get(addr) == 0x04)
     {
       addr++;
       return disass_loop(&addr, &work, comment);
@@ -87,7 +87,7 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
     return strdup("-- UNKNOWN/INVALID");
   b= dis_e->mnemonic;
 
-  if (rom->read(addr) == 0x18)
+  if (rom->get(addr) == 0x18)
     addr++;
 
   first= true;
@@ -111,9 +111,9 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	  if (strcmp(fmt.c_str(), "ep") == 0)
 	    {
 	      u8_t h, l, p;
-	      h= rom->read(addr+1);
-	      l= rom->read(addr+2);
-	      p= rom->read(addr+3);
+	      h= rom->get(addr+1);
+	      l= rom->get(addr+2);
+	      p= rom->get(addr+3);
 	      work.appendf("$%04x", h*256+l);
 	      work.append(",");
 	      work.appendf("$%02x", p);
@@ -121,11 +121,11 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	  if (strcmp(fmt.c_str(), "ip") == 0)
 	    {
 	      t_addr a= addr+1;
-	      u8_t xb= rom->read(a);
+	      u8_t xb= rom->get(a);
 	      disass_xb(&a, &work, comment, 3);
 	      if (!xb_indirect(xb))
 		{
-		  u8_t p= rom->read(a);
+		  u8_t p= rom->get(a);
 		  work.append(",");
 		  work.appendf("$%02x", p);
 		}
@@ -133,10 +133,10 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	  if (strcmp(fmt.c_str(), "IMID") == 0)
 	    {
 	      t_addr a= (addr+=2);
-	      u8_t h, l, xb= rom->read(a);
+	      u8_t h, l, xb= rom->get(a);
 	      addr++;
-	      h= rom->read(addr++);
-	      l= rom->read(addr++);
+	      h= rom->get(addr++);
+	      l= rom->get(addr++);
 	      work.appendf("#$%04x", h*256+l);
 	      work.append(", ");
 	      disass_xb(&a, &work, comment, 2, xb_PC(xb)?2:0);
@@ -144,9 +144,9 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	  if (strcmp(fmt.c_str(), "imid") == 0)
 	    {
 	      t_addr a= (addr+=2);
-	      u8_t h, xb= rom->read(a);
+	      u8_t h, xb= rom->get(a);
 	      addr++;
-	      h= rom->read(addr++);
+	      h= rom->get(addr++);
 	      work.appendf("#$%02x", h);
 	      work.append(", ");
 	      disass_xb(&a, &work, comment, 1, xb_PC(xb)?1:0);
@@ -154,27 +154,27 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	  if (strcmp(fmt.c_str(), "EXID") == 0)
 	    {
 	      t_addr aof_xb= (addr+=2), asrc;
-	      u8_t h, l, xb= rom->read(aof_xb);
+	      u8_t h, l, xb= rom->get(aof_xb);
 	      addr++;
-	      h= rom->read(addr++);
-	      l= rom->read(addr++);
+	      h= rom->get(addr++);
+	      l= rom->get(addr++);
 	      asrc= h*256+l;
 	      work.appendf("$%04x", asrc);
 	      work.append(", ");
-	      comment->appendf("; [%04x]=%04x",asrc,rom->read(asrc)*256+rom->read(asrc+1));
+	      comment->appendf("; [%04x]=%04x",asrc,rom->get(asrc)*256+rom->get(asrc+1));
 	      disass_xb(&aof_xb, &work, comment, 2, xb_PC(xb)?2:0);
 	    }
 	  if (strcmp(fmt.c_str(), "exid") == 0)
 	    {
 	      t_addr aof_xb= (addr+=2), asrc;
-	      u8_t h, l, xb= rom->read(aof_xb);
+	      u8_t h, l, xb= rom->get(aof_xb);
 	      addr++;
-	      h= rom->read(addr++);
-	      l= rom->read(addr++);
+	      h= rom->get(addr++);
+	      l= rom->get(addr++);
 	      asrc= h*256+l;
 	      work.appendf("$%04x", asrc);
 	      work.append(", ");
-	      comment->appendf("; [%04x]=%02x",asrc,rom->read(asrc));
+	      comment->appendf("; [%04x]=%02x",asrc,rom->get(asrc));
 	      disass_xb(&aof_xb, &work, comment, 1, xb_PC(xb)?2:0);
 	    }
 	  if (strcmp(fmt.c_str(), "IDID") == 0)
@@ -182,8 +182,8 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	      t_addr aof_xbsrc= (addr+=2);
 	      t_addr aof_xbdst= (addr+=1);
 	      u8_t xbsrc, xbdst;
-	      xbsrc= rom->read(aof_xbsrc);
-	      xbdst= rom->read(aof_xbdst);
+	      xbsrc= rom->get(aof_xbsrc);
+	      xbdst= rom->get(aof_xbdst);
 	      disass_xb(&aof_xbsrc, &work, comment, 2, xb_PC(xbsrc)?-1:0);
 	      work.append(", ");
 	      disass_xb(&aof_xbdst, &work, comment, 2, xb_PC(xbdst)?1:0);
@@ -193,8 +193,8 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	      t_addr aof_xbsrc= (addr+=2);
 	      t_addr aof_xbdst= (addr+=1);
 	      u8_t xbsrc, xbdst;
-	      xbsrc= rom->read(aof_xbsrc);
-	      xbdst= rom->read(aof_xbdst);
+	      xbsrc= rom->get(aof_xbsrc);
+	      xbdst= rom->get(aof_xbdst);
 	      disass_xb(&aof_xbsrc, &work, comment, 1, xb_PC(xbsrc)?-1:0);
 	      work.append(", ");
 	      disass_xb(&aof_xbdst, &work, comment, 1, xb_PC(xbdst)?1:0);
@@ -210,12 +210,12 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	    }
 	  if (strcmp(fmt.c_str(), "imex") == 0)
 	    {
-	      u8_t i= rom->read(addr+2);
+	      u8_t i= rom->get(addr+2);
 	      u16_t e= read_addr(rom, addr+3);
 	      work.appendf("#$%02x", i);
 	      work.append(", ");
 	      work.appendf("$%04x", e);
-	      comment->appendf("; [%04x]=%02x", e, rom->read(e));
+	      comment->appendf("; [%04x]=%02x", e, rom->get(e));
 	    }
 	  if (strcmp(fmt.c_str(), "EXEX") == 0)
 	    {
@@ -236,16 +236,16 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	      work.append(", ");
 	      work.appendf("$%04x", d);
 	      comment->appendf("; [%04x]=%02x [%04x]=%02x",
-			       s, rom->read(s),
-			       d, rom->read(d));
+			       s, rom->get(s),
+			       d, rom->get(d));
 	    }
 	  if (strcmp(fmt.c_str(), "IDEX") == 0)
 	    {
 	      t_addr aof_xb= (addr+=2), adst;
-	      u8_t h, l, xb= rom->read(aof_xb);
+	      u8_t h, l, xb= rom->get(aof_xb);
 	      addr++;
-	      h= rom->read(addr++);
-	      l= rom->read(addr++);
+	      h= rom->get(addr++);
+	      l= rom->get(addr++);
 	      disass_xb(&aof_xb, &work, comment, 2, xb_PC(xb)?-2:0);
 	      work.append(", ");
 	      work.appendf("$%04x", adst= h*256+l);
@@ -254,14 +254,14 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	  if (strcmp(fmt.c_str(), "idex") == 0)
 	    {
 	      t_addr aof_xb= (addr+=2), adst;
-	      u8_t h, l, xb= rom->read(aof_xb);
+	      u8_t h, l, xb= rom->get(aof_xb);
 	      addr++;
-	      h= rom->read(addr++);
-	      l= rom->read(addr++);
+	      h= rom->get(addr++);
+	      l= rom->get(addr++);
 	      disass_xb(&aof_xb, &work, comment, 1, xb_PC(xb)?-2:0);
 	      work.append(", ");
 	      work.appendf("$%04x", adst= h*256+l);
-	      comment->appendf(" [%04x]=%02x", adst, rom->read(adst));
+	      comment->appendf(" [%04x]=%02x", adst, rom->get(adst));
 	    }
 	  if (strcmp(fmt.c_str(), "em") == 0) // EMACS
 	    {
@@ -284,40 +284,40 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	  switch (b[i])
 	    {
 	    case 'x': case 'X': // indexed
-	      h= rom->read(addr+1);
+	      h= rom->get(addr+1);
 	      a= rX+h;
 	      work.appendf("$%02x,X", h);
 	      //add_spaces(&work, 20);
 	      if (b[i]=='x')
-		temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+		temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      else
 		temp.appendf("; [$%04x]=$%04x", a, read_addr(rom, a));
 	      break;
 	    case 'e': case 'E': // extended
-	      h= rom->read(addr+1);
-	      l= rom->read(addr+2);
+	      h= rom->get(addr+1);
+	      l= rom->get(addr+2);
 	      a= h*256 + l;
 	      work.appendf("$%04x", a);
 	      //add_spaces(&work, 20);
 	      if (b[i]=='e')
-		temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+		temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      else
 		temp.appendf("; [$%04x]=$%04x", a,
 			     read_addr(rom, a));
 	      break;
 	    case 'd': case 'D': // direct
-	      h= a= rom->read(addr+1);
+	      h= a= rom->get(addr+1);
 	      work.appendf("$00%02x", h);
 	      //add_spaces(&work, 20);
 	      if (b[i]=='d')
-		temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+		temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      else
 	        temp.appendf("; [$%04x]=$%04x", a,
 			     read_addr(rom, a));
 	      break;
 	    case 'b': // immediate 8 bit
 	      work.appendf("#$%02x",
-			   rom->read(addr+1));
+			   rom->get(addr+1));
 	      break;
 	    case 'B': // immediate 16 bit
 	      work.appendf("#$%04x",
@@ -325,13 +325,13 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	      break;
 	    case 'r': // relative 8 bit offset
 	      work.appendf("$%04x",
-			   (addr+2+(i8_t)(rom->read(addr+1))) & 0xffff );
+			   (addr+2+(i8_t)(rom->get(addr+1))) & 0xffff );
 	      break;
 	    case 'R': // relative 16 bit offset
 	      {
 		u16_t a= addr+4;
-		i16_t r= rom->read(addr+2)*256;
-		r+= rom->read(addr+3);
+		i16_t r= rom->get(addr+2)*256;
+		r+= rom->get(addr+3);
 		a+= r;
 		work.appendf("$%04x", a);
 		break;
@@ -369,7 +369,7 @@ CL12::disass_xb(t_addr *addr, chars *work, chars *comment, int len, int corr, u3
   t_addr aof_xb= *addr;
   u16_t a;
   
-  p= rom->read(aof_xb);
+  p= rom->get(aof_xb);
   (*addr)++;
   
   switch (xb_type(p))
@@ -388,8 +388,8 @@ CL12::disass_xb(t_addr *addr, chars *work, chars *comment, int len, int corr, u3
       break;
   
     case 5: // 5. 111r r011 [n16,r] rr={X,Y,SP,PC}
-      h= rom->read(aof_xb+1);
-      l= rom->read(aof_xb+2);
+      h= rom->get(aof_xb+1);
+      l= rom->get(aof_xb+2);
       work->appendf("[$%04x,%s]", h*256+l,rr_names[(p&0x18)>>3]);
       break;
 
@@ -418,14 +418,14 @@ CL12::disass_xb(t_addr *addr, chars *work, chars *comment, int len, int corr, u3
       if ((p&0x02) == 0x00)
 	{
 	  // 9 bit
-	  offset= rom->read(aof_xb+1);
+	  offset= rom->get(aof_xb+1);
 	  if (p&0x01) offset|= 0xff00;
 	}
       else
 	{
 	  // 16 bit
-	  h= rom->read(aof_xb+1);
-	  l= rom->read(aof_xb+2);
+	  h= rom->get(aof_xb+1);
+	  l= rom->get(aof_xb+2);
 	  offset= h*256+l;
 	}
       work->appendf("$%+d,%s", offset, rr_names[(p&0x18)>>3]);
@@ -458,7 +458,7 @@ CL12::disass_xb(t_addr *addr, chars *work, chars *comment, int len, int corr, u3
 	comment->appendf("%+d", corr);
       a+= corr;
       comment->appendf("]=$%02x%02x%02x",
-		       rom->read(a), rom->read(a+1), rom->read(a+2));
+		       rom->get(a), rom->get(a+1), rom->get(a+2));
     }
   *addr= aof_xb;
 }
@@ -468,7 +468,7 @@ CL12::disass_b7(t_addr *addr, chars *work, chars *comment)
 {
   bool spec= false;
   (*addr)++;
-  u8_t pb= rom->read(*addr);
+  u8_t pb= rom->get(*addr);
   if (pb & 0x08)
     work->append("TFR/EXG INVALID");
   else
@@ -504,9 +504,9 @@ CL12::disass_loop(t_addr *addr, chars *work, chars *comment)
   u8_t code;
   i16_t r;
 
-  code= rom->read(*addr);
+  code= rom->get(*addr);
   *addr= *addr + 1;
-  r= rom->read(*addr);
+  r= rom->get(*addr);
   *addr= *addr + 1;
   if ((code & 0xc0) == 0) work->append("D");
   else if ((code & 0xc0) == 0x40) work->append("T");
@@ -534,7 +534,7 @@ CL12::disass_loop(t_addr *addr, chars *work, chars *comment)
 int
 CL12::inst_length(t_addr addr)
 {
-  u8_t code= rom->read(addr);
+  u8_t code= rom->get(addr);
   if (code == 0x04)
     return 3;
   struct dis_entry *di= get_dis_entry(addr);
@@ -544,7 +544,7 @@ CL12::inst_length(t_addr addr)
 	return di->length;
       int l= -(di->length);
       u16_t a= (u16_t)addr+l-1;
-      u8_t p= rom->read(a);
+      u8_t p= rom->get(a);
       int corr= 0;
       if ((di->code == 0x4b)
 	  &&
diff --git a/src/sims/m68hc12.src/m68hc12.cc b/src/sims/m68hc12.src/m68hc12.cc
index 76cabca..e0d4a9e 100644
--- a/src/sims/m68hc12.src/m68hc12.cc
+++ b/src/sims/m68hc12.src/m68hc12.cc
@@ -680,10 +680,10 @@ void
 cl_hc12_cpu::print_info(class cl_console_base *con)
 {
   con->dd_color("answer");
-  con->dd_printf("PPAGE= $%02x\n", ppage->read());
-  con->dd_printf("DPAGE= $%02x\n", dpage->read());
-  con->dd_printf("EPAGE= $%02x\n", epage->read());
-  u8_t w= windef->read();
+  con->dd_printf("PPAGE= $%02x\n", ppage->get());
+  con->dd_printf("DPAGE= $%02x\n", dpage->get());
+  con->dd_printf("EPAGE= $%02x\n", epage->get());
+  u8_t w= windef->get();
   con->dd_printf("PWEN= %d\n", (w&0x40)?1:0);
   con->dd_printf("DWEN= %d\n", (w&0x80)?1:0);
   con->dd_printf("EWEN= %d\n", (w&0x20)?1:0);
diff --git a/src/sims/mos6502.src/mos6502.cc b/src/sims/mos6502.src/mos6502.cc
index 78910b8..39fb8be 100644
--- a/src/sims/mos6502.src/mos6502.cc
+++ b/src/sims/mos6502.src/mos6502.cc
@@ -304,48 +304,48 @@ cl_mos6502::disassc(t_addr addr, chars *comment)
 	  switch (b[i])
 	    {
 	    case 'x': // (ind,X)
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      work.appendf("($%02x", l);
 	      addr_name(l, rom, &work);
 	      work.append(",X)");
 	      l+= rX;
 	      a= read_addr(rom, l);
-	      temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
 	    case 'y': // (ind),Y
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      work.appendf("($%02x", l);
 	      addr_name(l, rom, &work);
 	      work.append(",Y)");
 	      a= read_addr(rom, l) + rY;
-	      temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
 	    case 'a': // abs
-	      l= rom->read(addr+1);
-	      h= rom->read(addr+2);
+	      l= rom->get(addr+1);
+	      h= rom->get(addr+2);
 	      a= h*256+l;
 	      work.appendf("$%04x", a);
 	      addr_name(a, rom, &work);
-	      temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
 	    case 'A': // abs -- addr[2]
-	      l= rom->read(addr+1+1);
-	      h= rom->read(addr+2+1);
+	      l= rom->get(addr+1+1);
+	      h= rom->get(addr+2+1);
 	      a= h*256+l;
 	      work.appendf("$%04x", a);
 	      addr_name(a, rom, &work);
-	      temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
 	    case 'j': // JMP abs
-	      l= rom->read(addr+1);
-	      h= rom->read(addr+2);
+	      l= rom->get(addr+1);
+	      h= rom->get(addr+2);
 	      a= h*256+l;
 	      work.appendf("$%04x", a);
 	      addr_name(a, rom, &work);
 	      break;
 	    case 'J': // JMP (ind)
-	      l= rom->read(addr+1);
-	      h= rom->read(addr+2);
+	      l= rom->get(addr+1);
+	      h= rom->get(addr+2);
 	      a= h*256+l;
 	      work.appendf("($%04x", a);
 	      addr_name(a, rom, &work);
@@ -353,96 +353,96 @@ cl_mos6502::disassc(t_addr addr, chars *comment)
 	      temp.appendf("; [$%04x]=$%04x", a, read_addr(rom, a));
 	      break;
 	    case 'z': // zpg
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      work.appendf("$%04x", a= l);
 	      addr_name(a, rom, &work);
-	      temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
 	    case 'Z': // zpg -- addr[2]
-	      l= rom->read(addr+1+1);
+	      l= rom->get(addr+1+1);
 	      work.appendf("$%04x", a= l);
 	      addr_name(a, rom, &work);
-	      temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
 	    case 'X': // zpg.X
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      work.appendf("$%04x", l);
 	      addr_name(l, rom, &work);
 	      work.append(",X");
 	      l+= rX;
 	      a= l;
-	      temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
 	    case '%': // zpg.X -- addr[2]
-	      l= rom->read(addr+1+1);
+	      l= rom->get(addr+1+1);
 	      work.appendf("$%04x", l);
 	      addr_name(l, rom, &work);
 	      work.append(",X");
 	      l+= rX;
 	      a= l;
-	      temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
 	    case 'Y': // zpg.Y
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      work.appendf("$%04x", l);
 	      addr_name(l, rom, &work);
 	      work.append(",Y");
 	      l+= rY;
 	      a= l;
-	      temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
 	    case 'I': // (abs,X)
-	      l= rom->read(addr+1);
-	      h= rom->read(addr+2);
+	      l= rom->get(addr+1);
+	      h= rom->get(addr+2);
 	      a= h*256+l;
 	      work.appendf("($%04x,X)", a);
 	      a+= rX;
 	      temp.appendf("; [$%04x]=$%04x", a, read_addr(rom, a));
 	      break;
 	    case 'i': // abs,X
-	      l= rom->read(addr+1);
-	      h= rom->read(addr+2);
+	      l= rom->get(addr+1);
+	      h= rom->get(addr+2);
 	      a= h*256+l;
 	      work.appendf("$%04x", a);
 	      addr_name(a, rom, &work);
 	      work.append(",X");
 	      a+= rX;
-	      temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
 	    case '6': // abs,X -- addr[2]
-	      l= rom->read(addr+1+1);
-	      h= rom->read(addr+2+1);
+	      l= rom->get(addr+1+1);
+	      h= rom->get(addr+2+1);
 	      a= h*256+l;
 	      work.appendf("$%04x", a);
 	      addr_name(a, rom, &work);
 	      work.append(",X");
 	      a+= rX;
-	      temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
 	    case 'p': // abs,Y
-	      l= rom->read(addr+1);
-	      h= rom->read(addr+2);
+	      l= rom->get(addr+1);
+	      h= rom->get(addr+2);
 	      a= h*256+l;
 	      work.appendf("$%04x", a);
 	      addr_name(a, rom, &work);
 	      work.append(",Y");
 	      a+= rY;
-	      temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
 	    case 'r': // rel
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      a= addr + (i8_t)l + 2;
 	      work.appendf("$%04x", a);
 	      addr_name(a, rom, &work);
 	      break;
 	    case 'R': // rel in BBR/BBS
-	      l= rom->read(addr+2);
+	      l= rom->get(addr+2);
 	      a= addr + (i8_t)l + 3;
 	      work.appendf("$%04x", a);
 	      addr_name(a, rom, &work);
 	      break;
 	    case '#': // imm8
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      work.appendf("#$%02x", l);
 	      break;
 	    case '3': // (ind16)
@@ -452,22 +452,22 @@ cl_mos6502::disassc(t_addr addr, chars *comment)
 	      addr_name(a, rom, &work);
 	      break;
 	    case '4': // (zind)
-	      a= rom->read(addr+1);
+	      a= rom->get(addr+1);
 	      work.appendf("($%04x)", a);
 	      a= read_addr(rom, a);
 	      addr_name(a, rom, &work);
-	      temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
 	    case 'L': // log2(imm8)
-	      a= rom->read(addr+1);
+	      a= rom->get(addr+1);
 	      a= L2i(a);
 	      work.appendf("%d", a);
 	      break;
 	    case 'T': // block transfer params: SL,SH,DL,DH,LL,LH
 	      {
-		u16_t s= rom->read(addr+1) + 256*rom->read(addr+2);
-		u16_t d= rom->read(addr+3) + 256*rom->read(addr+4);
-		u16_t l= rom->read(addr+5) + 256*rom->read(addr+6);
+		u16_t s= rom->get(addr+1) + 256*rom->get(addr+2);
+		u16_t d= rom->get(addr+3) + 256*rom->get(addr+4);
+		u16_t l= rom->get(addr+5) + 256*rom->get(addr+6);
 		work.appendf("$%04x,$%04x,$%04x", s, d, l);
 		break;
 	      }
@@ -648,7 +648,7 @@ cl_mos6502::print_regs(class cl_console_base *con)
     {
       con->dd_printf(" ? 0x%04x ", PC);
       {
-	int i, j, code= rom->read(PC), l= inst_length(PC);
+	int i, j, code= rom->get(PC), l= inst_length(PC);
 	struct dis_entry *dt= dis_tbl();
 	for (i=0;i<3;i++)
 	  if (i<l)
diff --git a/src/sims/mos6502.src/mos65ce02.cc b/src/sims/mos6502.src/mos65ce02.cc
index 7fdbaff..b5f5b87 100644
--- a/src/sims/mos6502.src/mos65ce02.cc
+++ b/src/sims/mos6502.src/mos65ce02.cc
@@ -78,7 +78,7 @@ cl_mos65ce02::print_regs(class cl_console_base *con)
     {
       con->dd_printf(" ? 0x%04x ", PC);
       {
-	int i, j, code= rom->read(PC), l= inst_length(PC);
+	int i, j, code= rom->get(PC), l= inst_length(PC);
 	struct dis_entry *dt= dis_tbl();
 	for (i=0;i<3;i++)
 	  if (i<l)
diff --git a/src/sims/oisc.src/em.cc b/src/sims/oisc.src/em.cc
index 24d3486..8b64d29 100644
--- a/src/sims/oisc.src/em.cc
+++ b/src/sims/oisc.src/em.cc
@@ -60,7 +60,7 @@ cl_em::cl_em(class cl_sim *asim):
 void
 cl_em::print_regs(class cl_console_base *con)
 {
-  u16_t v= rom->read(rP);
+  u16_t v= rom->get(rP);
   print_acc(con);
   con->dd_printf("P= %04x %5u %+5d ", rP, rP, rP);
   con->dd_printf(" [P]= %04x %5u %+5d\n", v, v, v);
diff --git a/src/sims/oisc.src/misc16.cc b/src/sims/oisc.src/misc16.cc
index 6a1f9b4..576df95 100644
--- a/src/sims/oisc.src/misc16.cc
+++ b/src/sims/oisc.src/misc16.cc
@@ -195,19 +195,19 @@ cl_misc16::dis_comment(t_addr src, t_addr dst)
 	sa= rA;
       if (s.nempty()) s+= ", ";
       else s+= "; ";
-      s.appendf("[0x%04x]=0x%04x", sa, rom->read(sa));
+      s.appendf("[0x%04x]=0x%04x", sa, rom->get(sa));
     }
   else if (src==7)
     {
       if (s.nempty()) s+= ", ";
       else s+= "; ";
-      s.appendf("[src=0x%04x]=0x%04x", rA, rom->read(rA));
+      s.appendf("[src=0x%04x]=0x%04x", rA, rom->get(rA));
     }
   else
     {
       if (s.nempty()) s+= ", ";
       else s+= "; ";
-      s.appendf("[src=0x%04x]=0x%04x", src, rom->read(src));
+      s.appendf("[src=0x%04x]=0x%04x", src, rom->get(src));
     }
   return s;
 }
diff --git a/src/sims/oisc.src/oisc.cc b/src/sims/oisc.src/oisc.cc
index 23346df..aa58892 100644
--- a/src/sims/oisc.src/oisc.cc
+++ b/src/sims/oisc.src/oisc.cc
@@ -140,8 +140,8 @@ cl_oisc::disassc(t_addr addr, chars *comment)
   u16_t src, dst;
   u16_t a;
 
-  src= rom->read(addr);
-  dst= rom->read(addr+1);
+  src= rom->get(addr);
+  dst= rom->get(addr+1);
   
   b= "mov %d,%s";
 
@@ -166,7 +166,7 @@ cl_oisc::disassc(t_addr addr, chars *comment)
 	  /*
 	  if (strcmp(fmt.c_str(), "i8") == 0)
 	    {
-	      work.appendf("#0x%02x", rom->read(addr+1));
+	      work.appendf("#0x%02x", rom->get(addr+1));
 	    }
 	  */
 	  /*
@@ -263,7 +263,7 @@ cl_oisc::exec_inst(void)
 void
 cl_oisc::print_acc(class cl_console_base *con)
 {
-  u16_t v= rom->read(rA);
+  u16_t v= rom->get(rA);
   con->dd_color("answer");
   con->dd_printf("A= %04x %5u %+5d ", rA, rA, (i16_t)rA);
   con->dd_printf(" [A]= %04x %5u %+5d ", v, v, (i16_t)v);
diff --git a/src/sims/oisc.src/urisc.cc b/src/sims/oisc.src/urisc.cc
index 315e1a2..7e6314b 100644
--- a/src/sims/oisc.src/urisc.cc
+++ b/src/sims/oisc.src/urisc.cc
@@ -145,7 +145,7 @@ cl_urisc::dis_comment(t_addr src, t_addr dst)
   if ((dst >= 0xfff0) && (dst <= 0xfff7) &&
       ((src < 0xfff0) || (src > 0xfff7)) &&
       (src != 0xffff))
-    s.appendf("; 0x%04x", rom->read(src));
+    s.appendf("; 0x%04x", rom->get(src));
   return s;
 }
 
diff --git a/src/sims/rxk.src/r3ka.cc b/src/sims/rxk.src/r3ka.cc
index f81e526..be1fa47 100644
--- a/src/sims/rxk.src/r3ka.cc
+++ b/src/sims/rxk.src/r3ka.cc
@@ -85,13 +85,13 @@ cl_r3ka::make_cpu_hw(void)
 struct dis_entry *
 cl_r3ka::dis_entry(t_addr addr)
 {
-  u8_t code= rom->read(addr);
+  u8_t code= rom->get(addr);
   int i;
   struct dis_entry *dt;
 
   if (code == 0xed)
     {
-      code= rom->read(addr+1);
+      code= rom->get(addr+1);
 
       dt= disass_pedm3;
       i= 0;
@@ -121,7 +121,7 @@ cl_r3ka::dis_entry(t_addr addr)
 	{
 	  cIR= &cIY;
 	}
-      code= rom->read(addr+1);
+      code= rom->get(addr+1);
       dt= disass_pddm3;
       i= 0;
       while (((code & dt[i].mask) != dt[i].code) &&
@@ -154,10 +154,10 @@ cl_r3ka::dis_entry(t_addr addr)
 char *
 cl_r3ka::disassc(t_addr addr, chars *comment)
 {
-  t_mem code= rom->read(addr);
+  t_mem code= rom->get(addr);
   if (code == 0x5b)
     {
-      if (rom->read(addr-1) != 0x76)
+      if (rom->get(addr-1) != 0x76)
 	return strdup("IDET");
     }
   return cl_r3k::disassc(addr, comment);
diff --git a/src/sims/rxk.src/r4k.cc b/src/sims/rxk.src/r4k.cc
index a3f4989..b34919e 100644
--- a/src/sims/rxk.src/r4k.cc
+++ b/src/sims/rxk.src/r4k.cc
@@ -164,13 +164,13 @@ static struct dis_entry de7f;
 struct dis_entry *
 cl_r4k::dis_entry(t_addr addr)
 {
-  u8_t code= rom->read(addr), mode= kmode;
+  u8_t code= rom->get(addr), mode= kmode;
   int i;
   struct dis_entry *dt;
   
   if (code == 0xed)
     {
-      code= rom->read(addr+1);
+      code= rom->get(addr+1);
       
       dt= disass_pedm3;
       i= 0;
@@ -208,7 +208,7 @@ cl_r4k::dis_entry(t_addr addr)
 	{
 	  cIR= &cIY;
 	}
-      code= rom->read(addr+1);
+      code= rom->get(addr+1);
       dt= disass_pddm3;
       i= 0;
       while (((code & dt[i].mask) != dt[i].code) &&
@@ -239,7 +239,7 @@ cl_r4k::dis_entry(t_addr addr)
   if ((code == 0x7f) && (mode == 3))
     {
       // 7f page is special in 4k mode
-      code= rom->read(addr+1);
+      code= rom->get(addr+1);
       if ((code <= 0x3f) || (code >= 0xc0))
 	return NULL;
       if ((code >= 0x40) && (code <= 0x6f))
@@ -272,7 +272,7 @@ cl_r4k::dis_entry(t_addr addr)
   if ((code == 0x7f) && (mode == 2))
     {
       // 7f page in mode 10 is same as 4k insts on main page
-      code= rom->read(addr+1);
+      code= rom->get(addr+1);
       dt= disass_p0m4;
       i= 0;
       while (((code & dt[i].mask) != dt[i].code) &&
@@ -330,7 +330,7 @@ char mnemo[100];
 struct dis_entry *
 cl_r4k::dis_6d_entry(t_addr addr)
 {
-  u8_t h, l, code= rom->read(addr+1);
+  u8_t h, l, code= rom->get(addr+1);
   chars op, idx, offset;
   
   if (code == 0x6d)
@@ -372,7 +372,7 @@ cl_r4k::dis_6d_entry(t_addr addr)
     {
     case 0:
       {
-	u8_t d= rom->read(addr+2);
+	u8_t d= rom->get(addr+2);
 	disass_6d[0].length= 3;
 	if (l&1)
 	  offset.format("+%u", d);
@@ -987,7 +987,7 @@ void
 cl_r4k_cpu::print_info(class cl_console_base *con)
 {
   cl_rxk_cpu::print_info(con);
-  con->dd_printf("EDMR    : 0x%02x\n", edmr->read());
+  con->dd_printf("EDMR    : 0x%02x\n", edmr->get());
 }
 
 
diff --git a/src/sims/rxk.src/r6k.cc b/src/sims/rxk.src/r6k.cc
index 2ee85da..51e613d 100644
--- a/src/sims/rxk.src/r6k.cc
+++ b/src/sims/rxk.src/r6k.cc
@@ -76,8 +76,8 @@ cl_r6k::init(void)
 struct dis_entry *
 cl_r6k::dis_entry(t_addr addr)
 {
-  u8_t code0= rom->read(addr);
-  t_mem codew= code0 + 256*(rom->read(addr+1));
+  u8_t code0= rom->get(addr);
+  t_mem codew= code0 + 256*(rom->get(addr+1));
   struct dis_entry *de;
   int i;
   i= 0;
@@ -102,7 +102,7 @@ cl_r6k::dis_entry(t_addr addr)
 char *
 cl_r6k::disassc_cb_6(t_addr addr, chars *comment)
 {
-  u8_t code= rom->read(addr);
+  u8_t code= rom->get(addr);
   switch (code & 7)
     {
     case 0: return strdup("LD    B,B");
diff --git a/src/sims/rxk.src/rxk.cc b/src/sims/rxk.src/rxk.cc
index 216df96..2a33aa4 100644
--- a/src/sims/rxk.src/rxk.cc
+++ b/src/sims/rxk.src/rxk.cc
@@ -236,7 +236,7 @@ cl_rxk::dis_tbl(void)
 struct dis_entry *
 cl_rxk::dis_entry(t_addr addr)
 {
-  u8_t code= rom->read(addr);
+  u8_t code= rom->get(addr);
   int i;
   struct dis_entry *dt;
   i= 0;
@@ -244,7 +244,7 @@ cl_rxk::dis_entry(t_addr addr)
   if (code == 0xed)
     {
       dt= disass_pedm3;
-      code= rom->read(addr+1);
+      code= rom->get(addr+1);
       while (((code & dt[i].mask) != dt[i].code) &&
 	     dt[i].mnemonic)
 	i++;
@@ -263,7 +263,7 @@ cl_rxk::dis_entry(t_addr addr)
 	  cIR= &cIY;
 	}
       dt= disass_pddm3;
-      code= rom->read(addr+1);
+      code= rom->get(addr+1);
       while (((code & dt[i].mask) != dt[i].code) &&
 	     dt[i].mnemonic)
 	i++;
@@ -308,15 +308,15 @@ cl_rxk::disassc(t_addr addr, chars *comment)
   
   dt= dis_entry(addr);
   if (code == 0xed)
-    code= rom->read(++addr);
+    code= rom->get(++addr);
   else if ((code == 0xdd) || (code == 0xfd))
     {
-      code= rom->read(++addr);
+      code= rom->get(++addr);
       if (code == 0xcb)
 	return disassc_dd_cb(addr-1, comment);
     }
   else if ((code == 0x49) && (kmode > 0))
-    code= rom->read(++addr);
+    code= rom->get(++addr);
   
   if (!dt)
     return strdup("-- unknown");
@@ -346,7 +346,7 @@ cl_rxk::disassc(t_addr addr, chars *comment)
 	  if (fmt.empty()) work.append("'");
 	  else if (fmt=="ps0.0")
 	    {
-	      int h= rom->read(addr) & 0x3;
+	      int h= rom->get(addr) & 0x3;
 	      switch (h)
 		{
 		case 0: work.append("PW"); break;
@@ -369,42 +369,42 @@ cl_rxk::disassc(t_addr addr, chars *comment)
 	      //x= rom->get(++addr);
 	      // use last 3 bytes
 	      addr+= 3;
-	      l= rom->read(inst_addr + dt->length-3);
-	      h= rom->read(inst_addr + dt->length-2);
-	      x= rom->read(inst_addr + dt->length-1);
+	      l= rom->get(inst_addr + dt->length-3);
+	      h= rom->get(inst_addr + dt->length-2);
+	      x= rom->get(inst_addr + dt->length-1);
 	      work.appendf("0x%06x", x*0x10000+h*256+l);
 	      break;
 	    case 'w': // 16 bit unsigned
-	      //l= rom->read(++addr);
-	      //h= rom->read(++addr);
+	      //l= rom->get(++addr);
+	      //h= rom->get(++addr);
 	      addr+= 2;
 	      // use last 2 bytes intead
-	      l= rom->read(inst_addr + dt->length-2);
-	      h= rom->read(inst_addr + dt->length-1);
+	      l= rom->get(inst_addr + dt->length-2);
+	      h= rom->get(inst_addr + dt->length-1);
 	      work.appendf("0x%04x", h*256+l);
 	      break;
 	    case 'b': // 8 bit unsigned
-	      //l= rom->read(++addr);
+	      //l= rom->get(++addr);
 	      ++addr;
-	      l= rom->read(inst_addr + dt->length-1);
+	      l= rom->get(inst_addr + dt->length-1);
 	      work.appendf("0x%02x", l);
 	      break;
 	    case 'd': // 8 bit signed
 	      {
 		i8_t r;
-		//r= rom->read(++addr);
+		//r= rom->get(++addr);
 		++addr;
 		// use last byte instead
-		r= rom->read(inst_addr + dt->length-1);
+		r= rom->get(inst_addr + dt->length-1);
 		work.appendf("%+d", r);
 	      }
 	      break;
 	    case 'r': // 8 bit relative jump
 	      {
 		i8_t r;
-		//r= rom->read(++addr);
+		//r= rom->get(++addr);
 		++addr;
-		r= rom->read(inst_addr + dt->length-1);
+		r= rom->get(inst_addr + dt->length-1);
 		t_addr a= addr + 1 + r;
 		work.appendf("0x%04x", AU16(a));
 	      }
@@ -412,11 +412,11 @@ cl_rxk::disassc(t_addr addr, chars *comment)
 	    case 'R': // 16 bit signed PC relative
 	      {
 		u8_t el, eh;
-		//el= rom->read(++addr);
-		//eh= rom->read(++addr);
+		//el= rom->get(++addr);
+		//eh= rom->get(++addr);
 		addr+= 2;
-		el= rom->read(inst_addr + dt->length-2);
-		eh= rom->read(inst_addr + dt->length-1);
+		el= rom->get(inst_addr + dt->length-2);
+		eh= rom->get(inst_addr + dt->length-1);
 		i16_t ee= eh*256+el;
 		t_addr a= (addr+1 + ee) & 0xffff;
 		work.appendf("0x%04x", a);
@@ -440,18 +440,18 @@ cl_rxk::disassc(t_addr addr, chars *comment)
 	    case 'X': // LXPC 0 1 2 3 xpl xph
 	      {
 		u16_t x;
-		x= rom->read(addr+4) * 256;
-		x+= rom->read(addr+3);
+		x= rom->get(addr+4) * 256;
+		x+= rom->get(addr+3);
 		work.appendf("0x%03x", x);
 		break;
 	      }
 	    case 'x': // 32 bit unsigned
 	      {
 		u32_t n, m, l, h;
-		n= rom->read(++addr);
-		m= rom->read(++addr);
-		l= rom->read(++addr);
-		h= rom->read(++addr);
+		n= rom->get(++addr);
+		m= rom->get(++addr);
+		l= rom->get(++addr);
+		h= rom->get(++addr);
 		work.appendf("0x%08x", (h<<24)+(l<<16)+(m<<8)+n);
 	      }
 	    }
@@ -468,7 +468,7 @@ cl_rxk::disassc(t_addr addr, chars *comment)
 char *
 cl_rxk::disassc_cb(t_addr addr, chars *comment)
 {
-  u8_t code= rom->read(++addr);
+  u8_t code= rom->get(++addr);
   u8_t x, y, z;
   chars work, temp;
   char b[100];
@@ -550,9 +550,9 @@ cl_rxk::disassc_dd_cb(t_addr addr, chars *comment)
   t_addr a;
   
   a= addr+2;
-  d= rom->read(a);
+  d= rom->get(a);
   a++;
-  code= rom->read(a);
+  code= rom->get(a);
   
   x= code>>6;
   y= (code>>3)&7;
@@ -630,12 +630,12 @@ cl_rxk::disassc_dd_cb(t_addr addr, chars *comment)
 int
 cl_rxk::inst_length(t_addr addr)
 {
-  u8_t code= rom->read(addr);
+  u8_t code= rom->get(addr);
   if (code == 0xcb)
     return 2;
   if ((code == 0xdd) || (code == 0xfd))
     {
-      if (rom->read(addr+1) == 0xcb)
+      if (rom->get(addr+1) == 0xcb)
 	return 4;
     }
   struct dis_entry *dt= dis_entry(addr);
@@ -1010,10 +1010,10 @@ cl_rxk_cpu::print_info(class cl_console_base *con)
   con->dd_color("answer");
   con->dd_printf("%s[%d]\n", id_string, id);
   con->dd_printf("(L)XPC  : 0x%03x\n", ruc->mem->get_xpc());
-  con->dd_printf("SEGSIZE : 0x%03x\n", segsize->read());
+  con->dd_printf("SEGSIZE : 0x%03x\n", segsize->get());
   con->dd_printf("DATASEG : 0x%03x\n", ruc->mem->get_dataseg());
   con->dd_printf("STACKSEG: 0x%03x\n", ruc->mem->get_stackseg());
-  //con->dd_printf("XPC     : 0x%02x\n", xpc->read());
+  //con->dd_printf("XPC     : 0x%02x\n", xpc->get());
   con->dd_printf("Prefix  : %s\n", ruc->prefix?"true":"false");
   con->dd_printf("ALTD    : %s\n", ruc->altd?"true":"false");
   con->dd_printf("Mem op  : %s\n", ruc->rwas->get_name());
diff --git a/src/sims/s51.src/uc51.cc b/src/sims/s51.src/uc51.cc
index cdab683..026a281 100644
--- a/src/sims/s51.src/uc51.cc
+++ b/src/sims/s51.src/uc51.cc
@@ -1339,7 +1339,7 @@ cl_51core::print_regs(class cl_console_base *con)
 		    dp= (dp*256) + dptr_chip->get(a+di);
 		  con->dd_printf("  %cDPTR%d= ", (i==act)?'*':' ', i);
 		  con->dd_printf("0x%04x", dp);
-		  data= xram->read(dp);
+		  data= xram->get(dp);
 		  con->dd_printf(" @DPTR%d= ", i);
 		  con->dd_printf("0x%02x %3d %c\n", data, data,
 				 isprint(data)?data:'.');
@@ -1363,7 +1363,7 @@ cl_51core::print_regs(class cl_console_base *con)
 	       sfr_chip->get(DPH-0x80) * 256) & 0xffff;
 	  con->dd_printf("  %cDPTR%d= ", (i==act)?'*':' ', i);
 	  con->dd_printf("0x%04x", dp);
-	  data= xram->read(dp);
+	  data= xram->get(dp);
 	  con->dd_printf(" @DPTR%d= ", i);
 	  con->dd_printf("0x%02x %3d %c\n", data, data,
 			 isprint(data)?data:'.');
@@ -1372,7 +1372,7 @@ cl_51core::print_regs(class cl_console_base *con)
 	    sfr_chip->get(cpu->cfg_get(uc51cpu_aof_mdps1h) - 0x80) * 256;
 	  con->dd_printf("  %cDPTR%d= ", (i==act)?'*':' ', i);
 	  con->dd_printf(xram->addr_format, dp);
-	  data= xram->read(dp);
+	  data= xram->get(dp);
 	  con->dd_printf(" @DPTR%d= ", i);
 	  con->dd_printf("0x%02x %3d %c\n", data, data,
 			 isprint(data)?data:'.');
@@ -1399,7 +1399,7 @@ cl_51core::print_regs(class cl_console_base *con)
   else
     {
       // no dptr address space, read SFR directly
-      data= xram->get(sfr->read(DPH)*256+sfr->read(DPL));
+      data= xram->get(sfr->get(DPH)*256+sfr->get(DPL));
       con->dd_printf("   DPTR= 0x%02x%02x @DPTR= 0x%02x %3d %c\n",
 		     sfr->get(DPH),
 		     sfr->get(DPL),
diff --git a/src/sims/stm8.src/stm8.cc b/src/sims/stm8.src/stm8.cc
index 1fdb9d5..a21bc4b 100644
--- a/src/sims/stm8.src/stm8.cc
+++ b/src/sims/stm8.src/stm8.cc
@@ -1018,8 +1018,8 @@ cl_stm8::print_regs(class cl_console_base *con)
   con->dd_printf("Y= 0x%04x %3d %c\n",
                  regs.Y, regs.Y, isprint(regs.Y)?regs.Y:'.');
   con->dd_printf("SP= 0x%04x [SP+1]= %02x %3d %c  Limit= 0x%04x\n",
-                 regs.SP, ram->read(regs.SP+1), ram->read(regs.SP+1),
-                 isprint(ram->read(regs.SP+1))?ram->read(regs.SP+1):'.',
+                 regs.SP, ram->get(regs.SP+1), ram->get(regs.SP+1),
+                 isprint(ram->get(regs.SP+1))?ram->get(regs.SP+1):'.',
 		 AU(sp_limit));
 
   print_disass(PC, con);
diff --git a/src/sims/tlcs.src/t870c.cc b/src/sims/tlcs.src/t870c.cc
index b56a5d7..643179a 100644
--- a/src/sims/tlcs.src/t870c.cc
+++ b/src/sims/tlcs.src/t870c.cc
@@ -251,13 +251,13 @@ cl_t870c::print_regs(class cl_console_base *con)
   con->dd_printf("A= 0x%02x %3d %c\n",
 		 rA, rA, isprint(rA)?rA:'.');
   con->dd_printf("%s\n", cbin(rF,8).c_str());
-  con->dd_printf("WA0=0x%04x [WA]=%02x  ", rWA, asd->read(rWA));
-  con->dd_printf("BC0=0x%04x [BC]=%02x  ", rBC, asd->read(rBC));
-  con->dd_printf("DE0=0x%04x [DE]=%02x\n", rDE, asd->read(rDE));
-  con->dd_printf("HL0=0x%04x [HL]=%02x  ", rHL, asd->read(rHL));
-  con->dd_printf("IX0=0x%04x [IX]=%02x  ", rIX, asd->read(rIX));
-  con->dd_printf("IY0=0x%04x [IY]=%02x\n", rIY, asd->read(rIY));
-  con->dd_printf("SP =0x%04x [SP]=%02x  ", rSP, asd->read(rSP));
+  con->dd_printf("WA0=0x%04x [WA]=%02x  ", rWA, asd->get(rWA));
+  con->dd_printf("BC0=0x%04x [BC]=%02x  ", rBC, asd->get(rBC));
+  con->dd_printf("DE0=0x%04x [DE]=%02x\n", rDE, asd->get(rDE));
+  con->dd_printf("HL0=0x%04x [HL]=%02x  ", rHL, asd->get(rHL));
+  con->dd_printf("IX0=0x%04x [IX]=%02x  ", rIX, asd->get(rIX));
+  con->dd_printf("IY0=0x%04x [IY]=%02x\n", rIY, asd->get(rIY));
+  con->dd_printf("SP =0x%04x [SP]=%02x  ", rSP, asd->get(rSP));
   con->dd_printf("\n");
   print_disass(PC, con);
 }
@@ -433,7 +433,7 @@ cl_t870c::disassc(t_addr addr, chars *comment)
 	      work.appendf("0x%04x", u16= code1+code2*256);
 	      if (comment)
 		comment->appendf("; %02x %02x",
-				 asd->read(u16), asd->read(u16+1));
+				 asd->get(u16), asd->get(u16+1));
 	    }
 	  else if (fmt=="dstF")
 	    {
@@ -442,7 +442,7 @@ cl_t870c::disassc(t_addr addr, chars *comment)
 		{
 		  u16_t a= aof_dstF(code32);
 		  comment->appendf("; [%04] %02x %02x",
-				   a, asd->read(a), asd->read(a+1));
+				   a, asd->get(a), asd->get(a+1));
 		}
 	    }
 	  else if (fmt=="dst5")
@@ -461,7 +461,7 @@ cl_t870c::disassc(t_addr addr, chars *comment)
 		{
 		  u16_t a= aof_dst5(code32);
 		  comment->appendf("; [%04x] %02x %02x",
-				   a, asd->read(a), asd->read(a+1));
+				   a, asd->get(a), asd->get(a+1));
 		}
 	    }
 	  else if (fmt=="srcE")
@@ -471,7 +471,7 @@ cl_t870c::disassc(t_addr addr, chars *comment)
 		{
 		  u16_t a= aof_srcE(code32);
 		  comment->appendf("; [%04x] %02x %02x",
-				   a, asd->read(a), asd->read(a+1));
+				   a, asd->get(a), asd->get(a+1));
 		}
 	    }
 	  else if (fmt=="srcD")
@@ -490,7 +490,7 @@ cl_t870c::disassc(t_addr addr, chars *comment)
 		{
 		  u16_t a= aof_srcD(code32);
 		  comment->appendf("; [%04x] %02x %02x",
-				   a, asd->read(a), asd->read(a+1));
+				   a, asd->get(a), asd->get(a+1));
 		}
 	    }
 	  else if (fmt=="src4")
@@ -500,7 +500,7 @@ cl_t870c::disassc(t_addr addr, chars *comment)
 		{
 		  u16_t a= (i8_t)rA + addr + 2;
 		  comment->appendf("; [%04x] %02x %02x",
-				   a, asd->read(a), asd->read(a+1));
+				   a, asd->get(a), asd->get(a+1));
 		}
 	    }
 	  else if (fmt=="ra5")
@@ -584,7 +584,7 @@ cl_t870c::disassc(t_addr addr, chars *comment)
 		work.appendf("0x%02x", x);
 		if (comment)
 		  comment->appendf("; [%04x] %02x %02x",
-				   x, asd->read(x), asd->read(x+1));
+				   x, asd->get(x), asd->get(x+1));
 	      }
 	      break;
 	    case 'b':
diff --git a/src/sims/tlcs.src/t870c1.cc b/src/sims/tlcs.src/t870c1.cc
index 76f3c5b..224ef27 100644
--- a/src/sims/tlcs.src/t870c1.cc
+++ b/src/sims/tlcs.src/t870c1.cc
@@ -230,25 +230,25 @@ cl_t870c1::print_regs(class cl_console_base *con)
     con->dd_color("answer");
   else
     con->dd_color("gray_answer");
-  con->dd_printf("WA0=0x%04x [WA]=%02x  ", rWA0, asd->read(rWA0));
-  con->dd_printf("BC0=0x%04x [BC]=%02x  ", rBC0, asd->read(rBC0));
-  con->dd_printf("DE0=0x%04x [DE]=%02x\n", rDE0, asd->read(rDE0));
-  con->dd_printf("HL0=0x%04x [HL]=%02x  ", rHL0, asd->read(rHL0));
-  con->dd_printf("IX0=0x%04x [IX]=%02x  ", rIX0, asd->read(rIX0));
-  con->dd_printf("IY0=0x%04x [IY]=%02x\n", rIY0, asd->read(rIY0));
+  con->dd_printf("WA0=0x%04x [WA]=%02x  ", rWA0, asd->get(rWA0));
+  con->dd_printf("BC0=0x%04x [BC]=%02x  ", rBC0, asd->get(rBC0));
+  con->dd_printf("DE0=0x%04x [DE]=%02x\n", rDE0, asd->get(rDE0));
+  con->dd_printf("HL0=0x%04x [HL]=%02x  ", rHL0, asd->get(rHL0));
+  con->dd_printf("IX0=0x%04x [IX]=%02x  ", rIX0, asd->get(rIX0));
+  con->dd_printf("IY0=0x%04x [IY]=%02x\n", rIY0, asd->get(rIY0));
   if ((rF & MRBS) != 0)
     con->dd_color("answer");
   else
     con->dd_color("gray_answer");
-  con->dd_printf("WA1=0x%04x [WA]=%02x  ", rWA1, asd->read(rWA1));
-  con->dd_printf("BC1=0x%04x [BC]=%02x  ", rBC1, asd->read(rBC1));
-  con->dd_printf("DE1=0x%04x [DE]=%02x\n", rDE1, asd->read(rDE1));
-  con->dd_printf("HL1=0x%04x [HL]=%02x  ", rHL1, asd->read(rHL1));
-  con->dd_printf("IX1=0x%04x [IX]=%02x  ", rIX1, asd->read(rIX1));
-  con->dd_printf("IY1=0x%04x [IY]=%02x\n", rIY1, asd->read(rIY1));
+  con->dd_printf("WA1=0x%04x [WA]=%02x  ", rWA1, asd->get(rWA1));
+  con->dd_printf("BC1=0x%04x [BC]=%02x  ", rBC1, asd->get(rBC1));
+  con->dd_printf("DE1=0x%04x [DE]=%02x\n", rDE1, asd->get(rDE1));
+  con->dd_printf("HL1=0x%04x [HL]=%02x  ", rHL1, asd->get(rHL1));
+  con->dd_printf("IX1=0x%04x [IX]=%02x  ", rIX1, asd->get(rIX1));
+  con->dd_printf("IY1=0x%04x [IY]=%02x\n", rIY1, asd->get(rIY1));
 
   con->dd_color("answer");
-  con->dd_printf("SP =0x%04x [SP]=%02x  ", rSP, asd->read(rSP));
+  con->dd_printf("SP =0x%04x [SP]=%02x  ", rSP, asd->get(rSP));
   con->dd_printf("\n");
   print_disass(PC, con);
 }
diff --git a/src/sims/z80.src/gb80.cc b/src/sims/z80.src/gb80.cc
index 5e112c3..b25cf40 100644
--- a/src/sims/z80.src/gb80.cc
+++ b/src/sims/z80.src/gb80.cc
@@ -387,18 +387,18 @@ cl_gb80::disass(t_addr addr)
           switch (*(b++))
             {
             case 'd': // d    jump relative target, signed? byte immediate operand
-              temp.format("#%d", (char)rom->read(addr+immed_offset));
+              temp.format("#%d", (char)rom->get(addr+immed_offset));
               ++immed_offset;
               break;
             case 'w': // w    word immediate operand
               temp.format("#0x%04x",
-                 (uint)((rom->read(addr+immed_offset)) |
-                        (rom->read(addr+immed_offset+1)<<8)) );
+                 (uint)((rom->get(addr+immed_offset)) |
+                        (rom->get(addr+immed_offset+1)<<8)) );
               ++immed_offset;
               ++immed_offset;
               break;
             case 'b': // b    byte immediate operand
-              temp.format("#0x%02x", (uint)rom->read(addr+immed_offset));
+              temp.format("#0x%02x", (uint)rom->get(addr+immed_offset));
               ++immed_offset;
               break;
             default:
diff --git a/src/sims/z80.src/z80.cc b/src/sims/z80.src/z80.cc
index 3d186e5..aa500ee 100644
--- a/src/sims/z80.src/z80.cc
+++ b/src/sims/z80.src/z80.cc
@@ -549,25 +549,25 @@ cl_z80::disass(t_addr addr)
           switch (*(b++))
             {
             case 'd': // jump relative target, signed? byte immediate operand
-              temp.format("%d", (signed char)(rom->read(addr+immed_offset)));
+              temp.format("%d", (signed char)(rom->get(addr+immed_offset)));
               ++immed_offset;
               break;
             case 'w': // word immediate operand, little endian
               temp.format("0x%04x",
-			  (uint)((rom->read(addr+immed_offset)) |
-				 (rom->read(addr+immed_offset+1)<<8)) );
+			  (uint)((rom->get(addr+immed_offset)) |
+				 (rom->get(addr+immed_offset+1)<<8)) );
               ++immed_offset;
               ++immed_offset;
               break;
             case 'W': // word immediate operand, big endian
               temp.format("0x%04x",
-			  (uint)((rom->read(addr+immed_offset)<<8) |
-				 (rom->read(addr+immed_offset+1))) );
+			  (uint)((rom->get(addr+immed_offset)<<8) |
+				 (rom->get(addr+immed_offset+1))) );
               ++immed_offset;
               ++immed_offset;
               break;
             case 'b': // byte immediate operand
-              temp.format("0x%02x", (uint)rom->read(addr+immed_offset));
+              temp.format("0x%02x", (uint)rom->get(addr+immed_offset));
               ++immed_offset;
               break;
             default:
@@ -594,28 +594,28 @@ cl_z80::print_regs(class cl_console_base *con)
                  regs.raf.A, regs.raf.A, isprint(regs.raf.A)?regs.raf.A:'.');
   con->dd_printf("%s\n", cbin(regs.raf.F, 8).c_str());
   con->dd_printf("BC= 0x%04x [BC]= %02x %3d %c  ",
-                 regs.BC, ram->read(regs.BC), ram->read(regs.BC),
-                 isprint(ram->read(regs.BC))?ram->read(regs.BC):'.');
+                 regs.BC, ram->get(regs.BC), ram->get(regs.BC),
+                 isprint(ram->get(regs.BC))?ram->get(regs.BC):'.');
   con->dd_printf("DE= 0x%04x [DE]= %02x %3d %c  ",
-                 regs.DE, ram->read(regs.DE), ram->read(regs.DE),
-                 isprint(ram->read(regs.DE))?ram->read(regs.DE):'.');
+                 regs.DE, ram->get(regs.DE), ram->get(regs.DE),
+                 isprint(ram->get(regs.DE))?ram->get(regs.DE):'.');
   con->dd_printf("HL= 0x%04x [HL]= %02x %3d %c\n",
-                 regs.HL, ram->read(regs.HL), ram->read(regs.HL),
-                 isprint(ram->read(regs.HL))?ram->read(regs.HL):'.');
+                 regs.HL, ram->get(regs.HL), ram->get(regs.HL),
+                 isprint(ram->get(regs.HL))?ram->get(regs.HL):'.');
   con->dd_printf("IX= 0x%04x [IX]= %02x %3d %c  ",
-                 regs.IX, ram->read(regs.IX), ram->read(regs.IX),
-                 isprint(ram->read(regs.IX))?ram->read(regs.IX):'.');
+                 regs.IX, ram->get(regs.IX), ram->get(regs.IX),
+                 isprint(ram->get(regs.IX))?ram->get(regs.IX):'.');
   con->dd_printf("IY= 0x%04x [IY]= %02x %3d %c  ",
-                 regs.IY, ram->read(regs.IY), ram->read(regs.IY),
-                 isprint(ram->read(regs.IY))?ram->read(regs.IY):'.');
+                 regs.IY, ram->get(regs.IY), ram->get(regs.IY),
+                 isprint(ram->get(regs.IY))?ram->get(regs.IY):'.');
   con->dd_printf("AF= 0x%04x [AF]= %02x %3d %c\n",
-                 regs.AF, ram->read(regs.AF), ram->read(regs.AF),
-                 isprint(ram->read(regs.AF))?ram->read(regs.AF):'.');
+                 regs.AF, ram->get(regs.AF), ram->get(regs.AF),
+                 isprint(ram->get(regs.AF))?ram->get(regs.AF):'.');
   con->dd_printf("SP limit= 0x%04x\n", AU(sp_limit));
   
   /*con->dd_printf("SP= 0x%04x ",
-                 regs.SP, ram->read(regs.SP), ram->read(regs.SP),
-                 isprint(ram->read(regs.SP))?ram->read(regs.SP):'.');
+                 regs.SP, ram->get(regs.SP), ram->get(regs.SP),
+                 isprint(ram->get(regs.SP))?ram->get(regs.SP):'.');
   */
   int i;
   con->dd_cprintf("answer", "SP= ");
@@ -626,8 +626,8 @@ cl_z80::print_regs(class cl_console_base *con)
       al= (regs.SP+i)&0xffff;
       ah= (al+1)&0xffff;
       con->dd_cprintf("dump_number", " %02x%02x",
-		      (u8_t)(ram->read(al)),
-		      (u8_t)(ram->read(ah)));
+		      (u8_t)(ram->get(al)),
+		      (u8_t)(ram->get(ah)));
     }
   con->dd_printf("\n");
   
-- 
2.43.0


From 44e335201449f1d3765fff74847121ffce09b37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:44 +0000
Subject: [PATCH 008/106] fix: where must not index the ctype table by wide
 cell values (SIGSEGV)

---
 src/core/sim.src/mem.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 92cdbd0..3fb2100 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -714,9 +714,9 @@ cl_memory::search_next(bool case_sensitive,
 	  d2= array[i];
 	  if (!case_sensitive)
 	    {
-	      if (/*d1 < 128*/isalpha(d1))
+	      if ((MU(d1) < 0x100) && isalpha(d1))
 		d1= toupper(d1);
-	      if (/*d2 < 128*/isalpha(d2))
+	      if ((MU(d2) < 0x100) && isalpha(d2))
 		d2= toupper(d2);
 	    }
 	  match= d1 == d2;
-- 
2.43.0


From acd322100642036e67ce893bb565379b4e80f615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:44 +0000
Subject: [PATCH 009/106] fix: EXG with PC on M6809 dereferenced a NULL
 register pointer

---
 src/sims/m6809.src/m6809.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index b2796ed..ac44918 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -1422,8 +1422,14 @@ cl_m6809::inst_10(t_mem code)
 	    u16_t *R2= reg16_ptr[r2&7];
 	    u16_t t;
 	    t= (R1)?*R1:PC;
-	    *R1= (R2)?*R2:PC;
-	    *R2= t;
+	    if (R1)
+	      *R1= (R2)?*R2:PC;
+	    else
+	      PC= (R2)?*R2:PC;
+	    if (R2)
+	      *R2= t;
+	    else
+	      PC= t;
 	  }
 	else
 	  {
-- 
2.43.0


From 1f45a741d3330f0b15601a0eb94caded0fee8589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:40 +0000
Subject: [PATCH 010/106] fix: fetch breakpoints must not change the machine:
 no breakpoint test inside prefixed instructions, no tick and no instruction
 counted at a hit

---
 src/core/sim.src/uc.cc        | 3 +++
 src/sims/f8.src/f8.cc         | 3 +--
 src/sims/m6809.src/m6809.cc   | 2 +-
 src/sims/p1516.src/p1516.cc   | 4 ++--
 src/sims/p1516.src/p2223.cc   | 4 ++--
 src/sims/s51.src/uc51.cc      | 2 +-
 src/sims/st7.src/st7.cc       | 2 +-
 src/sims/stm8.src/stm8.cc     | 2 +-
 src/sims/z80.src/ez80.cc      | 3 +--
 src/sims/z80.src/inst_cb.cc   | 3 +--
 src/sims/z80.src/inst_ed.cc   | 3 +--
 src/sims/z80.src/inst_xd.cc   | 3 +--
 src/sims/z80.src/inst_xxcb.cc | 3 +--
 13 files changed, 17 insertions(+), 20 deletions(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index f03c52c..6744cfa 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -3255,6 +3255,9 @@ cl_uc::do_inst(void)
       if (res == resINV_INST)
 	/* backup to start of instruction */
 	PC= instPC;
+      if (res == resBREAKPOINT)
+	/* nothing has been executed */
+	vc.inst--;
     }
   post_inst();
 
diff --git a/src/sims/f8.src/f8.cc b/src/sims/f8.src/f8.cc
index db33011..cbd1d25 100644
--- a/src/sims/f8.src/f8.cc
+++ b/src/sims/f8.src/f8.cc
@@ -402,8 +402,7 @@ cl_f8::exec_inst(void)
 	  prefixes|= P_ALT5;
 	  break;
 	}
-      if (fetch(&code))
-	return resBREAKPOINT;
+      code= fetch();
     }
   prefixes&= allowed_prefs[code]; // drop swap if not allowed!
   // select accumulators according to prefixes
diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index ac44918..d46de23 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -2376,9 +2376,9 @@ cl_m6809::exec_inst(void)
   bool fe;
 
   fe= fetch(&code);
-  tick(1);
   if (fe)
     return(resBREAKPOINT);
+  tick(1);
 
   if (code & 0x80)
     return inst_alu(code);
diff --git a/src/sims/p1516.src/p1516.cc b/src/sims/p1516.src/p1516.cc
index 09cc13d..12ce473 100644
--- a/src/sims/p1516.src/p1516.cc
+++ b/src/sims/p1516.src/p1516.cc
@@ -561,10 +561,10 @@ cl_p1516::exec_inst(void)
   PC= R[15];
   instPC= PC;
   fe= fetch(&code);
-  tick(1);
-  R[15]= PC;
   if (fe)
     return(resBREAKPOINT);
+  tick(1);
+  R[15]= PC;
 
   if (!cond(code))
     return resGO;
diff --git a/src/sims/p1516.src/p2223.cc b/src/sims/p1516.src/p2223.cc
index edd4024..79f709e 100644
--- a/src/sims/p1516.src/p2223.cc
+++ b/src/sims/p1516.src/p2223.cc
@@ -909,10 +909,10 @@ CLP2::exec_inst(void)
   instPC= PC;
   fe= fetch(&code);
   //if (dbg_reg) fprintf(stderr, "F: %08x %08x %08x\n", instPC, code, F);
-  tick(4);
-  R[15]= PC;
   if (fe)
     return(resBREAKPOINT);
+  tick(4);
+  R[15]= PC;
 
   if (!cond(code))
     return resGO;
diff --git a/src/sims/s51.src/uc51.cc b/src/sims/s51.src/uc51.cc
index 026a281..282cfd7 100644
--- a/src/sims/s51.src/uc51.cc
+++ b/src/sims/s51.src/uc51.cc
@@ -1650,7 +1650,7 @@ cl_51core::exec_inst(void)
   //if ((res= exec_inst_tab(itab51)) == resNOT_DONE)
   if ((res= exec_inst_uctab()) == resNOT_DONE)
     {
-      fetch(&code);
+      code= fetch();
       res= inst_unknown(code);
     }
   
diff --git a/src/sims/st7.src/st7.cc b/src/sims/st7.src/st7.cc
index 7b4f4d0..966c60a 100644
--- a/src/sims/st7.src/st7.cc
+++ b/src/sims/st7.src/st7.cc
@@ -484,7 +484,7 @@ cl_st7::exec_inst(void)
 	case 0x91:
 	case 0x92:
 		cprefix = code;
-		fetch(&code);
+		code= fetch();
 		break;
 	default:
 		cprefix = 0x00;
diff --git a/src/sims/stm8.src/stm8.cc b/src/sims/stm8.src/stm8.cc
index a21bc4b..69b99a8 100644
--- a/src/sims/stm8.src/stm8.cc
+++ b/src/sims/stm8.src/stm8.cc
@@ -1063,7 +1063,7 @@ cl_stm8::exec_inst(void)
     case 0x91:
     case 0x92:
       cprefix = code;
-      fetch(&code);
+      code= fetch();
       break;
     case 0x82:
       {
diff --git a/src/sims/z80.src/ez80.cc b/src/sims/z80.src/ez80.cc
index 0804a18..4b2a46d 100644
--- a/src/sims/z80.src/ez80.cc
+++ b/src/sims/z80.src/ez80.cc
@@ -445,8 +445,7 @@ cl_ez80::inst_ed(t_mem prefix)
 {
   t_mem code;
 
-  if (fetch(&code))
-    return (resBREAKPOINT);
+  code= fetch();
 
   return inst_ed_ez80(code);
 }
diff --git a/src/sims/z80.src/inst_cb.cc b/src/sims/z80.src/inst_cb.cc
index aad9027..efc1ecc 100644
--- a/src/sims/z80.src/inst_cb.cc
+++ b/src/sims/z80.src/inst_cb.cc
@@ -462,8 +462,7 @@ cl_z80::inst_cb(void)
 {
   t_mem code;
 
-  if (fetch(&code))
-    return(resBREAKPOINT);
+  code= fetch();
   //tick(7);
   switch (code)
     {
diff --git a/src/sims/z80.src/inst_ed.cc b/src/sims/z80.src/inst_ed.cc
index 2310ff3..c617d54 100644
--- a/src/sims/z80.src/inst_ed.cc
+++ b/src/sims/z80.src/inst_ed.cc
@@ -736,8 +736,7 @@ int  cl_z80::inst_ed(t_mem prefix)
 {
   t_mem code;
 
-  if (fetch(&code))
-    return(resBREAKPOINT);
+  code= fetch();
 
   return inst_ed_(code);
 }
diff --git a/src/sims/z80.src/inst_xd.cc b/src/sims/z80.src/inst_xd.cc
index da0a545..75091fc 100644
--- a/src/sims/z80.src/inst_xd.cc
+++ b/src/sims/z80.src/inst_xd.cc
@@ -500,8 +500,7 @@ cl_z80::inst_Xd(t_mem prefix)
   t_mem code;
   int i;
   
-  if (fetch(&code))
-    return(resBREAKPOINT);
+  code= fetch();
 
   switch (prefix)
     {
diff --git a/src/sims/z80.src/inst_xxcb.cc b/src/sims/z80.src/inst_xxcb.cc
index 2df88c4..f32d7f3 100644
--- a/src/sims/z80.src/inst_xxcb.cc
+++ b/src/sims/z80.src/inst_xxcb.cc
@@ -505,8 +505,7 @@ cl_z80::inst_XXcb(void)
   // 4th byte is opcode extension.
   n_offset = fetch();
 
-  if (fetch(&code))
-    return(resBREAKPOINT);
+  code= fetch();
   switch (code)
     {
     case 0x00: // RLC B
-- 
2.43.0


From 715d5386ede0fb534ac6932a0ed7527666d4327f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:53 +0000
Subject: [PATCH 011/106] fix: a list of more than 8192 items (e.g. interrupts
 never returned from) overran its heap block

---
 src/core/utils.src/pobjt.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/utils.src/pobjt.h b/src/core/utils.src/pobjt.h
index 0f5238f..7287c80 100644
--- a/src/core/utils.src/pobjt.h
+++ b/src/core/utils.src/pobjt.h
@@ -35,7 +35,7 @@ typedef int	t_index;
 typedef int	(*match_func)(const void *, const void *);
 typedef void	(*iterator_func)(const void *, const void *);
 
-#define max_list_size (0x10000/sizeof(void *))
+#define max_list_size (0x7fffffff/sizeof(void *))
 #define ccNotFound -1
 
 
-- 
2.43.0


From ad610c3d49c83ea5f28096eeb4ccc317454dfbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:00 +0000
Subject: [PATCH 012/106] fix: OISC did not report a breakpoint hit as
 breakpoint

---
 src/sims/oisc.src/oisc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/oisc.src/oisc.cc b/src/sims/oisc.src/oisc.cc
index aa58892..bd46ce8 100644
--- a/src/sims/oisc.src/oisc.cc
+++ b/src/sims/oisc.src/oisc.cc
@@ -256,7 +256,7 @@ cl_oisc::exec_inst(void)
       rom->write(dst, tmp);
       tick(4);
     }
-  return ret;
+  return ret?resBREAKPOINT:resGO;
 }
 
 
-- 
2.43.0


From bca36957637a272ee75136b05129eb5539af7991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:06 +0000
Subject: [PATCH 013/106] fix: disassembling an instruction of unknown length
 looped forever

---
 src/core/cmd.src/cmd_uc.cc | 10 ++++++----
 src/core/sim.src/mem.cc    |  3 ++-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/core/cmd.src/cmd_uc.cc b/src/core/cmd.src/cmd_uc.cc
index 8187a1d..6a57282 100644
--- a/src/core/cmd.src/cmd_uc.cc
+++ b/src/core/cmd.src/cmd_uc.cc
@@ -579,10 +579,12 @@ COMMAND_DO_WORK_UC(cl_dc_cmd)
       return(false);
     }
 
-  for (;
-       start <= end;
-       start+= uc->inst_length(start))
-    uc->print_disass(start, con);
+  while (start <= end)
+    {
+      int l= uc->inst_length(start);
+      uc->print_disass(start, con);
+      start+= (l > 0)?l:1;
+    }
   last= start;
   return(false);
 }
diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 3fb2100..4ee79d1 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -283,7 +283,8 @@ cl_memory::dump(int smart,
       if (smart && step > 0 && this == uc->rom)
         {
           uc->print_disass(ads->start, con, true);
-          ads->start += uc->inst_length(ads->start);
+          int l = uc->inst_length(ads->start);
+          ads->start += (l > 0) ? l : 1;
           dump_finished = ads->start;
           if (lines > 0 && --lines == 0)
             break;
-- 
2.43.0


From a9666b7a2f32750645e35d0c1ff9093486432782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:07 +0000
Subject: [PATCH 014/106] fix: fetch breakpoint hit: count no instruction in
 any CPU, no tick on I8085 and DS320

---
 src/core/sim.src/uc.cc      | 6 +++---
 src/sims/i8085.src/i8080.cc | 2 ++
 src/sims/s51.src/uc320.cc   | 2 +-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 6744cfa..e5391e4 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -3226,6 +3226,9 @@ cl_uc::do_brk(void)
 	      ret= true;
 	    }
     }
+  if (ret)
+    /* instruction will not be executed */
+    vc.inst--;
 
   return ret;
 }
@@ -3255,9 +3258,6 @@ cl_uc::do_inst(void)
       if (res == resINV_INST)
 	/* backup to start of instruction */
 	PC= instPC;
-      if (res == resBREAKPOINT)
-	/* nothing has been executed */
-	vc.inst--;
     }
   post_inst();
 
diff --git a/src/sims/i8085.src/i8080.cc b/src/sims/i8085.src/i8080.cc
index 8a1ee76..64b0b36 100644
--- a/src/sims/i8085.src/i8080.cc
+++ b/src/sims/i8085.src/i8080.cc
@@ -469,6 +469,8 @@ cl_i8080::exec_inst(void)
   tick_shift= 0;
   if ((res= exec_inst_tab(itab)) != resNOT_DONE)
     {
+      if (res == resBREAKPOINT)
+	return res;
       u8_t code= rom->read(instPC);
       u16_t t= ttab[code];
       t>>= tick_shift;
diff --git a/src/sims/s51.src/uc320.cc b/src/sims/s51.src/uc320.cc
index c4518d0..d0ab198 100644
--- a/src/sims/s51.src/uc320.cc
+++ b/src/sims/s51.src/uc320.cc
@@ -223,7 +223,7 @@ cl_uc320::exec_inst(void)
   code= rom->read(PC);
   res= cl_uc521::exec_inst();
 
-  if (res != resNOT_DONE)
+  if ((res != resNOT_DONE) && (res != resBREAKPOINT))
     tick(uc320_timing[code] - pending_ticks);
 
   return(res);
-- 
2.43.0


From 4abaf4381d03ea81e9df67fd4bc17541cdc1026e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:17 +0000
Subject: [PATCH 015/106] fix: bound the remembered interrupt levels of
 programs which never return from interrupts

---
 src/core/motorola.src/m6800.cc   |  2 +-
 src/core/sim.src/uc.cc           | 16 +++++++++++++++-
 src/core/sim.src/uccl.h          |  1 +
 src/sims/m6809.src/m6809.cc      |  2 +-
 src/sims/mos6502.src/mos6502.cc  |  2 +-
 src/sims/mos6502.src/mos65c02.cc |  2 +-
 src/sims/s51.src/uc51.cc         |  2 +-
 src/sims/stm8.src/stm8.cc        |  2 +-
 8 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/core/motorola.src/m6800.cc b/src/core/motorola.src/m6800.cc
index 4aba681..0eb3e4a 100644
--- a/src/core/motorola.src/m6800.cc
+++ b/src/core/motorola.src/m6800.cc
@@ -523,7 +523,7 @@ cl_m6800::accept_it(class it_level *il)
   PC= a;
   
   is->clear();
-  it_levels->push(il);
+  push_it_level(il);
   
   return resGO;
 }
diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index e5391e4..2962ace 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -3489,10 +3489,24 @@ cl_uc::do_interrupt(void)
   return resGO;
 }
 
+/*
+ * Remember an accepted interrupt. A program which leaves its interrupts
+ * without return instruction would collect levels endlessly: keep the
+ * main level and the latest ones only.
+ */
+
+void
+cl_uc::push_it_level(class it_level *il)
+{
+  if (it_levels->count > 1000)
+    it_levels->free_at(it_levels->count-2);
+  it_levels->push(il);
+}
+
 int
 cl_uc::accept_it(class it_level *il)
 {
-  it_levels->push(il);
+  push_it_level(il);
   return resGO;
 }
 
diff --git a/src/core/sim.src/uccl.h b/src/core/sim.src/uccl.h
index 44ba2bf..3772b1a 100644
--- a/src/core/sim.src/uccl.h
+++ b/src/core/sim.src/uccl.h
@@ -462,6 +462,7 @@ public:
   virtual int priority_of(uchar nuof_it) {return(0);}
   virtual int priority_main() { return 0; }
   virtual int accept_it(class it_level *il);
+  virtual void push_it_level(class it_level *il);
   virtual bool it_enabled(void) { return false; }
   virtual class cl_it_src *search_it_src(int cid_or_nr);
 
diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index d46de23..d0e3643 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -2428,7 +2428,7 @@ cl_m6809::accept_it(class it_level *il)
 
   is->clear();
   
-  it_levels->push(il);
+  push_it_level(il);
   tick(2);
   return resGO;
 }
diff --git a/src/sims/mos6502.src/mos6502.cc b/src/sims/mos6502.src/mos6502.cc
index 39fb8be..ed87e1f 100644
--- a/src/sims/mos6502.src/mos6502.cc
+++ b/src/sims/mos6502.src/mos6502.cc
@@ -722,7 +722,7 @@ cl_mos6502::accept_it(class it_level *il)
 
   rF|= flagI;
   is->clear();
-  it_levels->push(il);
+  push_it_level(il);
   
   return resGO;
 }
diff --git a/src/sims/mos6502.src/mos65c02.cc b/src/sims/mos6502.src/mos65c02.cc
index d69a9c8..78385aa 100644
--- a/src/sims/mos6502.src/mos65c02.cc
+++ b/src/sims/mos6502.src/mos65c02.cc
@@ -109,7 +109,7 @@ cl_mos65c02::accept_it(class it_level *il)
 
   rF|= flagI;
   is->clear();
-  it_levels->push(il);
+  push_it_level(il);
   
   return resGO;
 }
diff --git a/src/sims/s51.src/uc51.cc b/src/sims/s51.src/uc51.cc
index 282cfd7..2932352 100644
--- a/src/sims/s51.src/uc51.cc
+++ b/src/sims/s51.src/uc51.cc
@@ -1861,7 +1861,7 @@ cl_51core::accept_it(class it_level *il)
 {
   state= stGO;
   sfr->set(PCON, sfr->get(PCON) & ~bmIDL);
-  it_levels->push(il);
+  push_it_level(il);
   tick(1);
   int res= inst_lcall(0, il->addr, true);
   if (res != resGO)
diff --git a/src/sims/stm8.src/stm8.cc b/src/sims/stm8.src/stm8.cc
index 69b99a8..246a244 100644
--- a/src/sims/stm8.src/stm8.cc
+++ b/src/sims/stm8.src/stm8.cc
@@ -1965,7 +1965,7 @@ cl_stm8::accept_it(class it_level *il)
     { FLAG_SET(BIT_I1) FLAG_SET(BIT_I0) }
   PC = il->addr;
 
-  it_levels->push(il);
+  push_it_level(il);
   return resGO;//resINTERRUPT;
 }
 
-- 
2.43.0


From 24708b8147eb8889aff9e59504ebf48e732a8bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:23 +0000
Subject: [PATCH 016/106] fix: byte 0xff read from a raw input was stored as -1
 and lost

---
 src/core/utils.src/fio.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/utils.src/fio.cc b/src/core/utils.src/fio.cc
index 837a48a..c9bfcbf 100644
--- a/src/core/utils.src/fio.cc
+++ b/src/core/utils.src/fio.cc
@@ -686,7 +686,7 @@ cl_f::process(char c)
 	  echo_write(&c, 1);
 	}
       last_ln= 0;
-      return put(c);
+      return put(ci);
     }
 
   int l= strlen(line);
-- 
2.43.0


From b993d62e4147c5d589c742ed187ac10369577f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:23 +0000
Subject: [PATCH 017/106] fix: a read error (connection reset) on an input was
 ignored, the dead console remained forever

---
 src/core/utils.src/fio.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/core/utils.src/fio.cc b/src/core/utils.src/fio.cc
index c9bfcbf..d89cb7e 100644
--- a/src/core/utils.src/fio.cc
+++ b/src/core/utils.src/fio.cc
@@ -32,7 +32,7 @@ Software Foundation, 59 Temple Place - Suite 330, Boston, MA
 #include <sys/types.h>
 #include <unistd.h>
 #include HEADER_FD
-//#include <errno.h>
+#include <errno.h>
 #include <string.h>
 #if defined HAVE_SYS_SOCKET_H
 # include <sys/socket.h>
@@ -879,8 +879,13 @@ cl_f::pick(void)
     {
       at_end= 1;
     }
-  if (i < 0)
-    {}
+  if ((i < 0) &&
+      (errno != EINTR) &&
+      (errno != EAGAIN))
+    {
+      // broken input (e.g. connection reset), nothing more will come
+      at_end= 1;
+    }
   return i;
 }
 
-- 
2.43.0


From 6296eed8754a0f9aee69f2cc42db9d547aaa80c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:35 +0000
Subject: [PATCH 018/106] fix: short, interrupted or refused writes lost
 console and UART output

---
 src/core/utils.src/fio.cc | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/core/utils.src/fio.cc b/src/core/utils.src/fio.cc
index d89cb7e..1ba7db0 100644
--- a/src/core/utils.src/fio.cc
+++ b/src/core/utils.src/fio.cc
@@ -1001,6 +1001,28 @@ cl_f::read_dev(int *buf, int max)
 }
 
 
+/* Write all bytes: restart when interrupted, continue after a short
+   write, wait when the output can not accept more right now */
+
+static int
+write_all(int fid, const char *buf, int count)
+{
+  int done= 0;
+  while (done < count)
+    {
+      int i= ::write(fid, buf+done, count-done);
+      if (i > 0)
+	done+= i;
+      else if ((i < 0) && (errno == EINTR))
+	;
+      else if ((i < 0) && (errno == EAGAIN))
+	msleep(1);
+      else
+	return done?done:i;
+    }
+  return done;
+}
+
 int
 cl_f::write(const char *buf, int count)
 {
@@ -1009,7 +1031,7 @@ cl_f::write(const char *buf, int count)
     {
       if (type != F_SOCKET)
 	{
-	  return ::write(file_id, buf, count);
+	  return write_all(file_id, buf, count);
 	}
       // on socket, assume telnet
       for (i= 0; i < count; i++)
@@ -1018,13 +1040,13 @@ cl_f::write(const char *buf, int count)
 	  if ((buf[i] == '\r') ||
 	      (buf[i] == '\n'))
 	    {
-	      j= ::write(file_id, "\r\n", 2);
+	      j= write_all(file_id, "\r\n", 2);
 	      if (j != 2)
 	        {}
 	    }
 	  else
 	    {
-	      j= ::write(file_id, &buf[i], 1);
+	      j= write_all(file_id, &buf[i], 1);
 	      if (j != 1)
 	        {}
 	    }
-- 
2.43.0


From c7d6326809e0ca714b859d7369442f74adaae833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:36 +0000
Subject: [PATCH 019/106] fix: a long edited line did not fit in the input
 buffer and lost its newline

---
 src/core/utils.src/fio.cc  | 6 +++---
 src/core/utils.src/fiocl.h | 6 +++++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/core/utils.src/fio.cc b/src/core/utils.src/fio.cc
index 1ba7db0..c92338d 100644
--- a/src/core/utils.src/fio.cc
+++ b/src/core/utils.src/fio.cc
@@ -393,7 +393,7 @@ cl_f::~cl_f(void)
 int
 cl_f::put(int c)
 {
-  int n= (first_free + 1) % 1024;
+  int n= (first_free + 1) % FIO_BUF_SIZE;
   if (n == last_used)
     {
       printf("put: %d FULL!\n",c);
@@ -414,7 +414,7 @@ cl_f::get(void)
   int c= buffer[prev_last_used= last_used];
   if (c > 0)
     c&= 0xff;
-  last_used= (last_used + 1) % 1024;
+  last_used= (last_used + 1) % FIO_BUF_SIZE;
   return c;
 }
 
@@ -430,7 +430,7 @@ int
 cl_f::free_place(void)
 {
   if (first_free >= last_used)
-    return 1024 - (first_free - last_used) -1;
+    return FIO_BUF_SIZE - (first_free - last_used) -1;
   return last_used - first_free -1;
 }
 
diff --git a/src/core/utils.src/fiocl.h b/src/core/utils.src/fiocl.h
index 86d93ac..77c42c8 100644
--- a/src/core/utils.src/fiocl.h
+++ b/src/core/utils.src/fiocl.h
@@ -106,6 +106,10 @@ class cl_history: public cl_ustrings
 };
 
 
+/* Input buffer must be able to hold a finished line of the editor (1023
+   chars and the newline) and all the other bytes of a pick() */
+#define FIO_BUF_SIZE 2048
+
 /* General file */
 
 class cl_f: public cl_base
@@ -125,7 +129,7 @@ class cl_f: public cl_base
   int cursor;
   char esc_buffer[100];
   char last_ln;
-  int buffer[1024];
+  int buffer[FIO_BUF_SIZE];
   int prev_last_used, last_used, first_free;
   bool attributes_saved;
   class cl_history *hist;
-- 
2.43.0


From 677a35eb4db973e47887d5fdaa22b36db299931a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:36 +0000
Subject: [PATCH 020/106] fix: an unterminated escape sequence overran its
 buffer

---
 src/core/utils.src/fio.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/utils.src/fio.cc b/src/core/utils.src/fio.cc
index c92338d..9d9398e 100644
--- a/src/core/utils.src/fio.cc
+++ b/src/core/utils.src/fio.cc
@@ -542,6 +542,9 @@ cl_f::process_csi(void)
 	  }
       }
     }
+  if (l >= (int)sizeof(esc_buffer)-1)
+    // too long, not a sequence we know
+    return finish_esc(0);
   return 0;
 }
 
-- 
2.43.0


From 9ba04bf87d3d611af91a64dfcbf5b122935ecdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:29 +0000
Subject: [PATCH 021/106] fix: a console lost while its run or step was in
 progress left a dangling pointer (crash at the stop)

---
 src/core/cmd.src/newcmd.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/cmd.src/newcmd.cc b/src/core/cmd.src/newcmd.cc
index 6d8690c..f3a92fd 100644
--- a/src/core/cmd.src/newcmd.cc
+++ b/src/core/cmd.src/newcmd.cc
@@ -939,6 +939,10 @@ void
 cl_commander_base::del_console(class cl_console_base *console)
 {
   cons->disconn(console);
+  if (frozen_console == console)
+    frozen_console= 0;
+  if (actual_console == console)
+    actual_console= 0;
   update_active();
   delete console;
 }
-- 
2.43.0


From ab0717e09169ee860e74975490357a2cc2700559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:29 +0000
Subject: [PATCH 022/106] fix: a failed accept created a console or serial line
 on no descriptor

---
 src/core/cmd.src/newcmdposix.cc | 3 ++-
 src/core/sim.src/serial_hw.cc   | 9 ++++++---
 src/core/utils.src/fuio.cc      | 2 ++
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/core/cmd.src/newcmdposix.cc b/src/core/cmd.src/newcmdposix.cc
index 1777d97..d7246a3 100644
--- a/src/core/cmd.src/newcmdposix.cc
+++ b/src/core/cmd.src/newcmdposix.cc
@@ -341,7 +341,8 @@ cl_listen_console::proc_input(class cl_cmdset *cmdset)
   
   cmd= app->get_commander();
 
-  srv_accept(fin, &in, &out);
+  if (srv_accept(fin, &in, &out) != 0)
+    return(0);
   class cl_console_base *c= mk_console(in, out);
   cmd->add_console(c);
   return(0);
diff --git a/src/core/sim.src/serial_hw.cc b/src/core/sim.src/serial_hw.cc
index cfe318e..a41eff9 100644
--- a/src/core/sim.src/serial_hw.cc
+++ b/src/core/sim.src/serial_hw.cc
@@ -900,15 +900,18 @@ cl_serial_listener::proc_input(class cl_cmdset *cmdset)
   switch (sl_for)
     {
     case sl_io:
-      srv_accept(fin, &i, &o);
+      if (srv_accept(fin, &i, &o) != 0)
+	break;
       serial_hw->new_io(i, o);
       break;
     case sl_i:
-      srv_accept(fin, &i, NULL);
+      if (srv_accept(fin, &i, NULL) != 0)
+	break;
       serial_hw->new_i(i);
       break;
     case sl_o:
-      srv_accept(fin, NULL, &o);
+      if (srv_accept(fin, NULL, &o) != 0)
+	break;
       serial_hw->new_o(o);
       break;
     }
diff --git a/src/core/utils.src/fuio.cc b/src/core/utils.src/fuio.cc
index 644d46c..c38bee8 100644
--- a/src/core/utils.src/fuio.cc
+++ b/src/core/utils.src/fuio.cc
@@ -383,6 +383,8 @@ srv_accept(class cl_f *listen_io,
   int new_sock;
 
   new_sock= accept(listen_io->file_id, NULL, NULL);
+  if (new_sock < 0)
+    return 1;
   
   if (fin)
     {
-- 
2.43.0


From 2c8480bb1f3d41948897521e4f33c9a8d5daf3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:27 +0000
Subject: [PATCH 023/106] fix: stm8 UART: looking at its configuration forgot
 that the status register had been read

---
 src/sims/stm8.src/serial.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sims/stm8.src/serial.cc b/src/sims/stm8.src/serial.cc
index 5a44b59..ac4f711 100644
--- a/src/sims/stm8.src/serial.cc
+++ b/src/sims/stm8.src/serial.cc
@@ -154,6 +154,8 @@ cl_serial::added_to_uc(void)
 t_mem
 cl_serial::read(class cl_memory_cell *cell)
 {
+  if (conf(cell, NULL))
+    return cell->get();
   if (cell == regs[dr])
     {
       if (sr_read)
@@ -164,7 +166,6 @@ cl_serial::read(class cl_memory_cell *cell)
       return s_in;
     }
   sr_read= (cell == regs[sr]);
-  conf(cell, NULL);
   return cell->get();
 }
 
-- 
2.43.0


From 05011f6de65b3e4c0dfa46bf8db7d386f9cf4722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:01 +0000
Subject: [PATCH 024/106] fix: NMI of M6800 family was disabled until its
 configuration was looked at

---
 src/core/motorola.src/irq68.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/motorola.src/irq68.cc b/src/core/motorola.src/irq68.cc
index 77f70ef..e04646e 100644
--- a/src/core/motorola.src/irq68.cc
+++ b/src/core/motorola.src/irq68.cc
@@ -46,6 +46,8 @@ cl_irq_hw::init()
   //class cl_var *v;
 
   cl_hw::init();
+  // can not be masked
+  cfg_cell(m68_nmi_en)->set(1);
 
   return 0;
 }
-- 
2.43.0


From 08fd1198286836bbaf846f98547caf1a674a13b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:01 +0000
Subject: [PATCH 025/106] fix: reading a configuration cell returned its
 previous, stale value

---
 src/sims/s51.src/mdu.cc     | 4 ++--
 src/sims/stm8.src/timer.cc  | 2 +-
 src/sims/stm8.src/uid.cc    | 2 +-
 src/sims/tlcs.src/t870c.cc  | 2 +-
 src/sims/tlcs.src/t870c1.cc | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sims/s51.src/mdu.cc b/src/sims/s51.src/mdu.cc
index dcb4730..f7801f4 100644
--- a/src/sims/s51.src/mdu.cc
+++ b/src/sims/s51.src/mdu.cc
@@ -186,7 +186,7 @@ cl_mdu517::read(class cl_memory_cell *cell)
   t_mem v= cell->get();
   
   if (conf(cell, NULL))
-    return v;
+    return cell->get();
   if (cell == con)
     cell->set(v&= ~0x80);
   else if (sfr->is_owned(cell, &a))
@@ -386,7 +386,7 @@ cl_mdu88x::read(class cl_memory_cell *cell)
   t_mem val= cell->get();
   
   if (conf(cell, NULL))
-    return val;
+    return cell->get();
   if (cell == stat)
     {}
   else if (cell == con)
diff --git a/src/sims/stm8.src/timer.cc b/src/sims/stm8.src/timer.cc
index 3221591..55c1b41 100644
--- a/src/sims/stm8.src/timer.cc
+++ b/src/sims/stm8.src/timer.cc
@@ -192,7 +192,7 @@ cl_tim::read(class cl_memory_cell *cell)
   t_addr a;
   
   if (conf(cell, NULL))
-    return v;
+    return cell->get();
   if (!uc->rom->is_owned(cell, &a))
     return v;
   if ((a < base) ||
diff --git a/src/sims/stm8.src/uid.cc b/src/sims/stm8.src/uid.cc
index d782e95..da3a964 100644
--- a/src/sims/stm8.src/uid.cc
+++ b/src/sims/stm8.src/uid.cc
@@ -69,7 +69,7 @@ cl_uid::read(class cl_memory_cell *cell)
   t_mem v= cell->get();
   
   if (conf(cell, NULL))
-    return v;
+    return cell->get();
 
   return v;
 }
diff --git a/src/sims/tlcs.src/t870c.cc b/src/sims/tlcs.src/t870c.cc
index 643179a..7d6a77f 100644
--- a/src/sims/tlcs.src/t870c.cc
+++ b/src/sims/tlcs.src/t870c.cc
@@ -2068,7 +2068,7 @@ cl_t870c_cpu::read(class cl_memory_cell *cell)
 {
   t_mem v= cell->get();
   if (conf(cell, NULL))
-    return v;
+    return cell->get();
   if (cell == psw)
     {
       v= uc->rPSW;
diff --git a/src/sims/tlcs.src/t870c1.cc b/src/sims/tlcs.src/t870c1.cc
index 224ef27..f4bcb17 100644
--- a/src/sims/tlcs.src/t870c1.cc
+++ b/src/sims/tlcs.src/t870c1.cc
@@ -297,7 +297,7 @@ cl_t870c1_cpu::read(class cl_memory_cell *cell)
 {
   t_mem v= cell->get();
   if (conf(cell, NULL))
-    return v;
+    return cell->get();
   if (cell == psw)
     {
       v= uc->rPSW;
-- 
2.43.0


From af3a56f09a1865ea1f8283f7e2a1f57238595ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:23 +0000
Subject: [PATCH 026/106] fix: a console with permanently available input (UART
 on a file) locked out the consoles after it

---
 src/core/cmd.src/newcmdposix.cc  | 6 +++++-
 src/core/cmd.src/newcmdposixcl.h | 4 +++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/core/cmd.src/newcmdposix.cc b/src/core/cmd.src/newcmdposix.cc
index d7246a3..65b18ee 100644
--- a/src/core/cmd.src/newcmdposix.cc
+++ b/src/core/cmd.src/newcmdposix.cc
@@ -580,8 +580,11 @@ cl_commander::proc_input(void)
 	config_console= 0;
     }
   
-  for (int j = 0; j < cons->count; j++)
+  // Start after the last served console, so a console which always has
+  // input (UART connected to a file) can not lock out the others.
+  for (int i = 0; i < cons->count; i++)
     {
+      int j= (next_input + i) % cons->count;
       class cl_console *c =
 	(class cl_console*)((class cl_console_base*)(cons->at(j)));
       class cl_f *f= c->get_fin();
@@ -596,6 +599,7 @@ cl_commander::proc_input(void)
 	  if (c->input_avail())
             {
               actual_console = c;
+	      next_input= j+1;
               int retval = c->proc_input(cmdset);
               if (retval)
                 {
diff --git a/src/core/cmd.src/newcmdposixcl.h b/src/core/cmd.src/newcmdposixcl.h
index b0a42ab..5838bf7 100644
--- a/src/core/cmd.src/newcmdposixcl.h
+++ b/src/core/cmd.src/newcmdposixcl.h
@@ -104,10 +104,12 @@ class cl_sub_console: public cl_console
 
 class cl_commander: public cl_commander_base
 {
+ protected:
+  int next_input;	// console to look at first for input
  public:
   cl_commander(class cl_app *the_app, class cl_cmdset *acmdset)
     : cl_commander_base(the_app, acmdset)
-  {}
+  { next_input= 0; }
   virtual int init(void);
   virtual void update_active(void);
   virtual int input_avail(void);
-- 
2.43.0


From 48cfa9b564d635f6dc6fcd202410f064cedb3839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:43 +0000
Subject: [PATCH 027/106] fix: STM8 UART lost the last received byte when its
 input had ended

---
 src/sims/stm8.src/serial.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sims/stm8.src/serial.cc b/src/sims/stm8.src/serial.cc
index ac4f711..8c5cc1a 100644
--- a/src/sims/stm8.src/serial.cc
+++ b/src/sims/stm8.src/serial.cc
@@ -270,13 +270,15 @@ cl_serial::tick(int cycles)
 	}
     }
   if ((ren) &&
-      io->get_fin() &&
       !s_receiving)
     {
       if (cfg_get(serconf_check_often))
 	{
-	  if (io->input_avail())
-	    io->proc_input(0);
+	  if (io->get_fin())
+	    {
+	      if (io->input_avail())
+		io->proc_input(0);
+	    }
 	}
       if (input_avail)
 	{
-- 
2.43.0


From c53711232041b349dbd077ef8183d87c0767d160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:43 +0000
Subject: [PATCH 028/106] fix: UART input dropped newlines of mixed line
 endings and took garbage from interrupted reads

---
 src/core/sim.src/serial_hw.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/core/sim.src/serial_hw.cc b/src/core/sim.src/serial_hw.cc
index a41eff9..14a8449 100644
--- a/src/core/sim.src/serial_hw.cc
+++ b/src/core/sim.src/serial_hw.cc
@@ -704,7 +704,7 @@ cl_serial_hw::proc_not_in_menu(cl_f *fin, cl_f *fout)
 
   if (fin->tty /*&& !flw*/ && esc)
     {
-      if (fin->read(&c, 1))
+      if (fin->read(&c, 1) > 0)
 	{
 	  if (c == esc)
 	    {
@@ -714,7 +714,7 @@ cl_serial_hw::proc_not_in_menu(cl_f *fin, cl_f *fout)
 	  else if (!input_avail)
 	    {
 	      if (skip_nl /*&& is_nl(c)*/ && (c==skip_nl))
-		;
+		skip_nl= 0;
 	      else
 		{
 		  input= c;
@@ -735,10 +735,10 @@ cl_serial_hw::proc_not_in_menu(cl_f *fin, cl_f *fout)
       if (!flw ||
 	  able)
 	{
-	  if (fin->read(&c, 1))
+	  if (fin->read(&c, 1) > 0)
 	    {
 	      if (skip_nl /*&& is_nl(c)*/ && (c==skip_nl))
-		;
+		skip_nl= 0;
 	      else
 		{
 		  input= c;
@@ -759,7 +759,7 @@ cl_serial_hw::proc_in_menu(cl_f *fin, cl_f *fout)
   char esc= (char)cfg_get(serconf_escape);
   bool run= uc->sim->state & SIM_GO;
 
-  if (fin->read(&c, 1))
+  if (fin->read(&c, 1) > 0)
     {
       switch (menu)
 	{
-- 
2.43.0


From 05d2c442001fa2a02a403336185393c7b843a73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:38 +0000
Subject: [PATCH 029/106] fix: stores and JSR of M6809 read their destination
 (a store to the ACIA's data register discarded a received byte)

---
 src/sims/m6809.src/m6809.cc | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index d0e3643..7f6065c 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -1150,6 +1150,9 @@ cl_m6809::inst_alu(t_mem code)
   u8_t *acc, op8, idx;
   u16_t op16;
   t_addr ea;
+  // stores and JSR do not read their operand
+  bool rd= ((code & 0x0f) != 0x07) &&
+    ((code & 0x0f) != 0x0d) && ((code & 0x0f) != 0x0f);
   
   if (code == 0x87 ||
       code == 0xc7 ||
@@ -1170,9 +1173,9 @@ cl_m6809::inst_alu(t_mem code)
     case 0x10: // direct
       ea= reg.DP*256 + fetch();
       tick(2);
-      op8= rom->read(ea);
+      op8= rd?(rom->read(ea)):0;
       tick(1);
-      vc.rd++;
+      if (rd) vc.rd++;
       break;
     case 0x20: // index
       {
@@ -1181,17 +1184,17 @@ cl_m6809::inst_alu(t_mem code)
 	tick(1);
 	if ((r= index2ea(idx, &ea)) != resGO)
 	  return r;
-	op8= rom->read(ea);
+	op8= rd?(rom->read(ea)):0;
 	tick(1);
-	vc.rd++;
+	if (rd) vc.rd++;
 	break;
       }
     case 0x30: // extend
       ea= fetch()*256 + fetch();
       tick(3);
-      op8= rom->read(ea);
+      op8= rd?(rom->read(ea)):0;
       tick(1);
-      vc.rd++;
+      if (rd) vc.rd++;
       break;
     default: op8= 0; break;
     }
@@ -2198,6 +2201,7 @@ cl_m6809::inst_page1(t_mem code)
   */
   u8_t cl= code & 0xf;
   u8_t ch= code >> 4;
+  bool rd= cl != 0xf; // stores do not read their operand
   switch (code & 0x30)
     {
     case 0x00: // immed
@@ -2212,9 +2216,9 @@ cl_m6809::inst_page1(t_mem code)
       if ((ch==13)&&(cl!=14)&&(cl!=15)) return resINV_INST;
       ea= reg.DP*256 + fetch();
       tick(1);
-      op8= rom->read(ea);
+      op8= rd?(rom->read(ea)):0;
       tick(1);
-      vc.rd++;
+      if (rd) vc.rd++;
       break;
     case 0x20: // index
       {
@@ -2225,9 +2229,9 @@ cl_m6809::inst_page1(t_mem code)
 	tick(1);
 	if ((r= index2ea(idx, &ea)) != resGO)
 	  return r;
-	op8= rom->read(ea);
+	op8= rd?(rom->read(ea)):0;
 	tick(1);
-	vc.rd++;
+	if (rd) vc.rd++;
 	break;
       }
     case 0x30: // extend
@@ -2235,9 +2239,9 @@ cl_m6809::inst_page1(t_mem code)
       if ((ch==15)&&(cl!=14)&&(cl!=15)) return resINV_INST;
       ea= fetch()*256 + fetch();
       tick(2);
-      op8= rom->read(ea);
+      op8= rd?(rom->read(ea)):0;
       tick(1);
-      vc.rd++;
+      if (rd) vc.rd++;
       break;
     default: op8= 0; break;
     }
@@ -2249,9 +2253,9 @@ cl_m6809::inst_page1(t_mem code)
     }
   else
     {
-      op16= op8*256 + rom->read(ea+1);
+      op16= op8*256 + (rd?(rom->read(ea+1)):0);
       tick(1);
-      vc.rd++;
+      if (rd) vc.rd++;
     }
   
   switch (cl)
-- 
2.43.0


From bd440c6ea83620d0b9cb3ba8705b568f7a566009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:38 +0000
Subject: [PATCH 030/106] fix: STY and STS of M6809 were swapped

---
 src/sims/m6809.src/m6809.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index 7f6065c..747b0a3 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -2273,7 +2273,7 @@ cl_m6809::inst_page1(t_mem code)
 	  inst_ld16(code, &(reg.S), op16);
       break;
     case 0xf: // STY, STS
-      if (code & 0x40)
+      if ((code & 0x40) == 0)
 	inst_st16(code, reg.Y, ea);
       else
 	inst_st16(code, reg.S, ea);
-- 
2.43.0


From 8a4b542e7a047f308078761e28aff7dcc85e87b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:27 +0000
Subject: [PATCH 031/106] fix: next did not step over ACALL of page 0 (and
 calls of the DS390 in flat mode)

---
 src/sims/s51.src/glob.cc  |  2 +-
 src/sims/s51.src/uc390.cc | 18 +++++++++---------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/sims/s51.src/glob.cc b/src/sims/s51.src/glob.cc
index 25a02a6..9a3307a 100644
--- a/src/sims/s51.src/glob.cc
+++ b/src/sims/s51.src/glob.cc
@@ -54,7 +54,7 @@ struct dis_entry disass_51[]= {
   { 0x0e, 0xff, ' ', 1, "INC R6"},
   { 0x0f, 0xff, ' ', 1, "INC R7"},
   { 0x10, 0xff, 'R', 3, "JBC %b,%R"},
-  { 0x11, 0xff, 'a', 2, "ACALL %A"},
+  { 0x11, 0xff, 'a', 2, "ACALL %A", true},
   { 0x12, 0xff, 'l', 3, "LCALL %l", true},
   { 0x13, 0xff, ' ', 1, "RRC A"},
   { 0x14, 0xff, ' ', 1, "DEC A"},
diff --git a/src/sims/s51.src/uc390.cc b/src/sims/s51.src/uc390.cc
index da6427d..fc75643 100644
--- a/src/sims/s51.src/uc390.cc
+++ b/src/sims/s51.src/uc390.cc
@@ -74,8 +74,8 @@ struct dis_entry disass_390f[] = {
   { 0x0e, 0xff, ' ', 1, "INC R6"},
   { 0x0f, 0xff, ' ', 1, "INC R7"},
   { 0x10, 0xff, 'R', 3, "JBC %b,%R"},
-  { 0x11, 0xff, 'a', 3, "ACALL %A"},
-  { 0x12, 0xff, 'l', 4, "LCALL %l"},
+  { 0x11, 0xff, 'a', 3, "ACALL %A", true},
+  { 0x12, 0xff, 'l', 4, "LCALL %l", true},
   { 0x13, 0xff, ' ', 1, "RRC A"},
   { 0x14, 0xff, ' ', 1, "DEC A"},
   { 0x15, 0xff, ' ', 2, "DEC %a"},
@@ -106,7 +106,7 @@ struct dis_entry disass_390f[] = {
   { 0x2e, 0xff, ' ', 1, "ADD A,R6"},
   { 0x2f, 0xff, ' ', 1, "ADD A,R7"},
   { 0x30, 0xff, 'R', 3, "JNB %b,%R"},
-  { 0x31, 0xff, 'a', 3, "ACALL %A"},
+  { 0x31, 0xff, 'a', 3, "ACALL %A", true},
   { 0x32, 0xff, '_', 1, "RETI"},
   { 0x33, 0xff, ' ', 1, "RLC A"},
   { 0x34, 0xff, ' ', 2, "ADDC A,#%d"},
@@ -138,7 +138,7 @@ struct dis_entry disass_390f[] = {
   { 0x4e, 0xff, ' ', 1, "ORL A,R6"},
   { 0x4f, 0xff, ' ', 1, "ORL A,R7"},
   { 0x50, 0xff, 'r', 2, "JNC %r"},
-  { 0x51, 0xff, 'a', 3, "ACALL %A"},
+  { 0x51, 0xff, 'a', 3, "ACALL %A", true},
   { 0x52, 0xff, ' ', 2, "ANL %a,A"},
   { 0x53, 0xff, ' ', 3, "ANL %a,#%D"},
   { 0x54, 0xff, ' ', 2, "ANL A,#%d"},
@@ -170,7 +170,7 @@ struct dis_entry disass_390f[] = {
   { 0x6e, 0xff, ' ', 1, "XRL A,R6"},
   { 0x6f, 0xff, ' ', 1, "XRL A,R7"},
   { 0x70, 0xff, 'r', 2, "JNZ %r"},
-  { 0x71, 0xff, 'a', 3, "ACALL %A"},
+  { 0x71, 0xff, 'a', 3, "ACALL %A", true},
   { 0x72, 0xff, ' ', 2, "ORL C,%b"},
   { 0x73, 0xff, '_', 1, "JMP @A+DPTR"},
   { 0x74, 0xff, ' ', 2, "MOV A,#%d"},
@@ -202,7 +202,7 @@ struct dis_entry disass_390f[] = {
   { 0x8e, 0xff, ' ', 2, "MOV %a,R6"},
   { 0x8f, 0xff, ' ', 2, "MOV %a,R7"},
   { 0x90, 0xff, ' ', 4, "MOV DPTR,#%l"},
-  { 0x91, 0xff, 'a', 3, "ACALL %A"},
+  { 0x91, 0xff, 'a', 3, "ACALL %A", true},
   { 0x92, 0xff, ' ', 2, "MOV %b,C"},
   { 0x93, 0xff, ' ', 1, "MOVC A,@A+DPTR"},
   { 0x94, 0xff, ' ', 2, "SUBB A,#%d"},
@@ -234,7 +234,7 @@ struct dis_entry disass_390f[] = {
   { 0xae, 0xff, ' ', 2, "MOV R6,%a"},
   { 0xaf, 0xff, ' ', 2, "MOV R7,%a"},
   { 0xb0, 0xff, ' ', 2, "ANL C,/%b"},
-  { 0xb1, 0xff, 'a', 3, "ACALL %A"},
+  { 0xb1, 0xff, 'a', 3, "ACALL %A", true},
   { 0xb2, 0xff, ' ', 2, "CPL %b"},
   { 0xb3, 0xff, ' ', 1, "CPL C"},
   { 0xb4, 0xff, 'R', 3, "CJNE A,#%d,%R"},
@@ -266,7 +266,7 @@ struct dis_entry disass_390f[] = {
   { 0xce, 0xff, ' ', 1, "XCH A,R6"},
   { 0xcf, 0xff, ' ', 1, "XCH A,R7"},
   { 0xd0, 0xff, ' ', 2, "POP %a"},
-  { 0xd1, 0xff, 'a', 3, "ACALL %A"},
+  { 0xd1, 0xff, 'a', 3, "ACALL %A", true},
   { 0xd2, 0xff, ' ', 2, "SETB %b"},
   { 0xd3, 0xff, ' ', 1, "SETB C"},
   { 0xd4, 0xff, ' ', 1, "DA A"},
@@ -298,7 +298,7 @@ struct dis_entry disass_390f[] = {
   { 0xee, 0xff, ' ', 1, "MOV A,R6"},
   { 0xef, 0xff, ' ', 1, "MOV A,R7"},
   { 0xf0, 0xff, ' ', 1, "MOVX @DPTR,A"},
-  { 0xf1, 0xff, 'a', 3, "ACALL %A"},
+  { 0xf1, 0xff, 'a', 3, "ACALL %A", true},
   { 0xf2, 0xff, ' ', 1, "MOVX @R0,A"},
   { 0xf3, 0xff, ' ', 1, "MOVX @R1,A"},
   { 0xf4, 0xff, ' ', 1, "CPL A"},
-- 
2.43.0


From b9c17e01c16b1256c25fead0bce090d9d88f610a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:27 +0000
Subject: [PATCH 032/106] fix: a breakpoint after a prefix of Rabbit made the
 prefix forgotten

---
 src/sims/rxk.src/rxk.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/sims/rxk.src/rxk.cc b/src/sims/rxk.src/rxk.cc
index 2a33aa4..88d6ca9 100644
--- a/src/sims/rxk.src/rxk.cc
+++ b/src/sims/rxk.src/rxk.cc
@@ -789,12 +789,11 @@ cl_rxk::exec_inst(void)
       rwas= rom;
       altd= false;
     }
-  prefix= false;
-  atomic= false;
-  
   instPC= PC;
   if (fetch(&code))
     return resBREAKPOINT;
+  prefix= false;
+  atomic= false;
   tick(1);
   if (code == 0xed)
     {
-- 
2.43.0


From 179a14302061c28a89b733a4762c84873307afbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:27 +0000
Subject: [PATCH 033/106] fix: quitting while an executed script is in progress
 aborted (pure virtual call)

---
 src/core/utils.src/app.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/utils.src/app.cc b/src/core/utils.src/app.cc
index 9e20105..430834c 100644
--- a/src/core/utils.src/app.cc
+++ b/src/core/utils.src/app.cc
@@ -91,8 +91,10 @@ cl_app::cl_app(void)
 
 cl_app::~cl_app(void)
 {
+  class cl_commander_base *c= commander;
   remove_simulator();
-  delete commander;
+  commander= 0; // consoles must not use it while it is being destroyed
+  delete c;
   delete in_files;
   delete ocon;
   delete options;
-- 
2.43.0


From a8abc704de72756546b8801c5d21ccf188d34d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:27 +0000
Subject: [PATCH 034/106] fix: event breakpoints and VCD variables on a
 peripheral's register changed the value the program reads

---
 src/core/sim.src/mem.cc  | 16 ++++++++++++----
 src/core/sim.src/memcl.h |  3 +++
 src/core/sim.src/vcd.cc  |  1 +
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 4ee79d1..3929dd7 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -1209,9 +1209,13 @@ cl_memory_cell::read(void)
 #endif
   if (ops && ops[0])
     {
-      t_mem r= 0;
+      t_mem r= d();
       for (int i=0; ops[i]; i++)
-	r= ops[i]->read();
+	{
+	  t_mem v= ops[i]->read();
+	  if (!ops[i]->observer())
+	    r= v;
+	}
       return r;
     }
   return d();
@@ -1225,9 +1229,13 @@ cl_memory_cell::read(enum hw_cath skip)
 #endif
   if (ops && ops[0])
     {
-      t_mem r= 0;
+      t_mem r= d();
       for (int i=0; ops[i]; i++)
-	r= ops[i]->read(skip);
+	{
+	  t_mem v= ops[i]->read(skip);
+	  if (!ops[i]->observer())
+	    r= v;
+	}
       return r;
     }
   return d();
diff --git a/src/core/sim.src/memcl.h b/src/core/sim.src/memcl.h
index 21b12d7..6be987f 100644
--- a/src/core/sim.src/memcl.h
+++ b/src/core/sim.src/memcl.h
@@ -230,6 +230,8 @@ public:
   virtual bool match(class cl_hw *the_hw) { return(false); }
   virtual bool match(class cl_brk *brk) { return(false); }
 
+  // observers see accesses but do not take part in them
+  virtual bool observer(void) { return(false); }
   virtual t_mem read(void);
   virtual t_mem read(enum hw_cath skip) { return(read()); }
   virtual t_mem write(t_mem val);
@@ -279,6 +281,7 @@ public:
   }
 
   virtual bool match(class cl_brk *brk) { return(bp == brk); }
+  virtual bool observer(void) { return(true); }
 };
 
 class cl_write_operator: public cl_event_break_operator
diff --git a/src/core/sim.src/vcd.cc b/src/core/sim.src/vcd.cc
index 20ccf8e..4e9b467 100644
--- a/src/core/sim.src/vcd.cc
+++ b/src/core/sim.src/vcd.cc
@@ -106,6 +106,7 @@ class cl_vcd_var: public cl_memory_operator
   cl_vcd_var(class cl_vcd *vcd, char vcd_id, class cl_memory_cell *cell, int bitnr_high, int bitnr_low);
   ~cl_vcd_var(void);
 
+  virtual bool observer(void) { return(true); }
   t_mem write(t_mem val);
 };
 
-- 
2.43.0


From 5041478ed1f06419de63e44eb68f6865a3b63b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:28 +0000
Subject: [PATCH 035/106] fix: registers' display and disassembly must not
 access memory (it consumed event hits and read peripherals)

---
 src/core/motorola.src/m6800.cc   | 17 ++++++++++----
 src/core/motorola.src/m6800cl.h  |  1 +
 src/core/motorola.src/m68hc11.cc |  8 +++----
 src/core/sim.src/mem.cc          |  6 +++--
 src/core/sim.src/memcl.h         |  8 +++++++
 src/core/sim.src/uc.cc           |  9 ++++++++
 src/core/sim.src/uccl.h          |  1 +
 src/sims/f8.src/disass.cc        | 32 +++++++++++++--------------
 src/sims/i8085.src/i8080.cc      | 14 ++++++------
 src/sims/m68hc12.src/dis.cc      | 38 ++++++++++++++++----------------
 src/sims/mos6502.src/mos6502.cc  | 14 ++++++------
 src/sims/tlcs.src/t870c.cc       |  2 +-
 src/sims/z80.src/gb80.cc         | 16 +++++++-------
 13 files changed, 98 insertions(+), 68 deletions(-)

diff --git a/src/core/motorola.src/m6800.cc b/src/core/motorola.src/m6800.cc
index 0eb3e4a..1dcd20e 100644
--- a/src/core/motorola.src/m6800.cc
+++ b/src/core/motorola.src/m6800.cc
@@ -401,7 +401,7 @@ cl_m6800::disassc(t_addr addr, chars *comment)
 	      if (b[i]=='x')
 		temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      else
-		temp.appendf("; [$%04x]=$%04x", a, read_addr(rom, a));
+		temp.appendf("; [$%04x]=$%04x", a, peek_addr(rom, a));
 	      break;
 	    case 'e': case 'E': // extended
 	      h= rom->get(++addr);
@@ -413,7 +413,7 @@ cl_m6800::disassc(t_addr addr, chars *comment)
 		temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      else
 		temp.appendf("; [$%04x]=$%04x", a,
-			     read_addr(rom, a));
+			     peek_addr(rom, a));
 	      break;
 	    case 'd': case 'D': // direct
 	      h= a= rom->get(++addr);
@@ -423,7 +423,7 @@ cl_m6800::disassc(t_addr addr, chars *comment)
 		temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      else
 	        temp.appendf("; [$%04x]=$%04x", a,
-			     read_addr(rom, a));
+			     peek_addr(rom, a));
 	      break;
 	    case 'b': // immediate 8 bit
 	      work.appendf("#$%02x",
@@ -431,7 +431,7 @@ cl_m6800::disassc(t_addr addr, chars *comment)
 	      break;
 	    case 'B': // immediate 16 bit
 	      work.appendf("#$%04x",
-			   read_addr(rom, ++addr));
+			   peek_addr(rom, ++addr));
 	      break;
 	    case 'r': // relative
 	      work.appendf("$%04x",
@@ -468,6 +468,15 @@ cl_m6800::read_addr(class cl_memory *m, t_addr start_addr)
   return h*256 + l;
 }
 
+t_addr
+cl_m6800::peek_addr(class cl_memory *m, t_addr start_addr)
+{
+  u8_t h, l;
+  h= m->get(start_addr);
+  l= m->get(start_addr+1);
+  return h*256 + l;
+}
+
 void
 cl_m6800::print_regs(class cl_console_base *con)
 {
diff --git a/src/core/motorola.src/m6800cl.h b/src/core/motorola.src/m6800cl.h
index c899a13..13f0ba0 100644
--- a/src/core/motorola.src/m6800cl.h
+++ b/src/core/motorola.src/m6800cl.h
@@ -190,6 +190,7 @@ public:
   virtual struct dis_entry *get_dis_entry(t_addr addr);
   virtual char *disassc(t_addr addr, chars *comment=NULL);
   virtual t_addr read_addr(class cl_memory *m, t_addr start_addr);
+  virtual t_addr peek_addr(class cl_memory *m, t_addr start_addr);
   virtual int inst_length(t_addr addr);
   virtual int longest_inst(void) { return 4; }
   
diff --git a/src/core/motorola.src/m68hc11.cc b/src/core/motorola.src/m68hc11.cc
index fc61f73..17cbca5 100644
--- a/src/core/motorola.src/m68hc11.cc
+++ b/src/core/motorola.src/m68hc11.cc
@@ -359,7 +359,7 @@ cl_m68hc11::disassc(t_addr addr, chars *comment)
 	      if (b[i]=='x')
 		temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      else
-		temp.appendf("; [$%04x]=$%04x", a, read_addr(rom, a));
+		temp.appendf("; [$%04x]=$%04x", a, peek_addr(rom, a));
 	      break;
 	    case 'e': case 'E': // extended
 	      h= rom->get(addr+1);
@@ -371,7 +371,7 @@ cl_m68hc11::disassc(t_addr addr, chars *comment)
 		temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      else
 		temp.appendf("; [$%04x]=$%04x", a,
-			     read_addr(rom, a));
+			     peek_addr(rom, a));
 	      break;
 	    case 'd': case 'D': // direct
 	      h= a= rom->get(addr+1);
@@ -381,7 +381,7 @@ cl_m68hc11::disassc(t_addr addr, chars *comment)
 		temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      else
 	        temp.appendf("; [$%04x]=$%04x", a,
-			     read_addr(rom, a));
+			     peek_addr(rom, a));
 	      break;
 	    case 'b': // immediate 8 bit
 	      work.appendf("#$%02x",
@@ -389,7 +389,7 @@ cl_m68hc11::disassc(t_addr addr, chars *comment)
 	      break;
 	    case 'B': // immediate 16 bit
 	      work.appendf("#$%04x",
-			   read_addr(rom, addr+1));
+			   peek_addr(rom, addr+1));
 	      break;
 	    case 'r': // relative
 	      work.appendf("$%04x",
diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 3929dd7..cc4f5ea 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -489,7 +489,8 @@ cl_memory::dump(int smart,
                 break;
             }
           con->dd_printf(" ");
-          con->dd_printf(data_format, read(ads->start+n*step));
+          t_addr a= ads->start+n*step;
+          con->dd_printf(data_format, ads->peek?get(a):read(a));
         }
       con->dd_printf("%-*s", (bpl - n) * (width/4 + ((width%4)?1:0) + 1) + 1, " ");
 
@@ -500,7 +501,8 @@ cl_memory::dump(int smart,
              ads->start+i*step != ads->stop;
            i++)
         {
-          long c= read(ads->start+i*step);
+          t_addr a= ads->start+i*step;
+          long c= ads->peek?get(a):read(a);
 	  // FIXME: endian assumption: low byte first - should be a uc flag or option?
           for (int ii= 0; ii <= (width - 1) - ((width - 1) % 8); ii += 8)
             con->dd_printf("%c", (isprint((c >> ii) & 255) ? (c >> ii) & 255 : '.'));
diff --git a/src/core/sim.src/memcl.h b/src/core/sim.src/memcl.h
index 6be987f..f08601d 100644
--- a/src/core/sim.src/memcl.h
+++ b/src/core/sim.src/memcl.h
@@ -60,33 +60,40 @@ class cl_dump_ads: public cl_base
 public:
   t_addr start, stop;
   bool use_start, use_stop;
+  bool peek; // just look at it: it is not an access of the memory
 public:
   cl_dump_ads(void): cl_base()
   {
     start= 0; stop= 0;
     use_start= false; use_stop= false;
+    peek= false;
   }
   cl_dump_ads(t_addr the_start): cl_base()
   {
     start= the_start; stop= 0;
     use_start= true; use_stop= false;
+    peek= false;
   }
+  // used by displaying of registers
   cl_dump_ads(t_addr the_start,
 	      t_addr the_stop): cl_base()
   {
     start= the_start; stop= the_stop;
     use_start= true; use_stop= true;
+    peek= true;
   }
   cl_dump_ads(t_addr the_start, bool the_use_start,
 	      t_addr the_stop, bool the_use_stop): cl_base()
   {
     start= the_start; stop= the_stop;
     use_start= the_use_start; use_stop= the_use_stop;
+    peek= false;
   }
   cl_dump_ads(const cl_dump_ads &da)
   {
     start= da.start; stop= da.stop;
     use_start= da.use_start; use_stop= da.use_stop;
+    peek= da.peek;
   }
 public:
   virtual void _start(t_addr the_start) {
@@ -100,6 +107,7 @@ public:
   virtual void _ss(t_addr the_start, t_addr the_stop) {
     start= the_start; stop= the_stop;
     use_start= true; use_stop= true;
+    peek= true;
   }
   virtual void _ss7(t_addr the_start) {
     start= the_start; stop= the_start+7;
diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 2962ace..c425ebf 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -2897,6 +2897,15 @@ cl_uc::read_addr(class cl_memory *m, t_addr start_addr)
   return m->read(start_addr) + 256*m->read(start_addr+1);
 }
 
+// Same for disassembler: it is not an access of the memory
+
+t_addr
+cl_uc::peek_addr(class cl_memory *m, t_addr start_addr)
+{
+  if (!m) return 0;
+  return m->get(start_addr) + 256*m->get(start_addr+1);
+}
+
 /*
  * Messages to broadcast
  */
diff --git a/src/core/sim.src/uccl.h b/src/core/sim.src/uccl.h
index 3772b1a..27ed985 100644
--- a/src/core/sim.src/uccl.h
+++ b/src/core/sim.src/uccl.h
@@ -541,6 +541,7 @@ public:
   virtual chars cell_name(class cl_memory_cell *cell, int bitnr_high, int bitnr_low);
   virtual chars cell_name(class cl_memory_cell *cell) { return cell_name(cell, -1, -1); }
   virtual t_addr read_addr(class cl_memory *m, t_addr start_addr);
+  virtual t_addr peek_addr(class cl_memory *m, t_addr start_addr);
   virtual class cl_cvar *get_var(chars name);
   
   /* Converting abstract address spaces into real ones */
diff --git a/src/sims/f8.src/disass.cc b/src/sims/f8.src/disass.cc
index 84c4a71..b91d760 100644
--- a/src/sims/f8.src/disass.cc
+++ b/src/sims/f8.src/disass.cc
@@ -229,31 +229,31 @@ cl_f8::disassc(t_addr addr, chars *comment)
 	    }
 	  if (strcmp(fmt.c_str(), "i16") == 0)
 	    {
-	      word->appendf("0x%04x", read_addr(rom, addr+1));
+	      word->appendf("0x%04x", peek_addr(rom, addr+1));
 	    }
 	  if (strcmp(fmt.c_str(), "a16") == 0)
 	    {
-	      a= read_addr(rom, addr+1);
+	      a= peek_addr(rom, addr+1);
 	      word->appendf("0x%04x", a);
 	    }
 	  if (strcmp(fmt.c_str(), "a16_8") == 0)
 	    {
-	      a= read_addr(rom, addr+1);
+	      a= peek_addr(rom, addr+1);
 	      word->appendf("0x%04x", a);
 	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->get(a));
 	    }
 	  if (strcmp(fmt.c_str(), "a16_16") == 0)
 	    {
-	      a= read_addr(rom, addr+1);
+	      a= peek_addr(rom, addr+1);
 	      word->appendf("0x%04x", a);
-	      comment->appendf("; [0x%04x]= 0x%04x", a, read_addr(rom, a));
+	      comment->appendf("; [0x%04x]= 0x%04x", a, peek_addr(rom, a));
 	    }
 	  if (strstr(fmt.c_str(), "a16_b") == fmt.c_str())
 	    {
 	      char bc= fmt.c_str()[5];
 	      int b= 0;
 	      if (bc && bc>='0' && bc<='7') b= bc-'0';
-	      a= read_addr(rom, addr+1);
+	      a= peek_addr(rom, addr+1);
 	      word->appendf("0x%04x", a);
 	      l= rom->get(a);
 	      h= l&(1<<b);
@@ -273,11 +273,11 @@ cl_f8::disassc(t_addr addr, chars *comment)
 	      a= rSP+l;
 	      a&= 0xffff;
 	      word->appendf("0x%02x,sp", l);
-	      comment->appendf("; [0x%04x]= 0x%04x", a, read_addr(rom,a));
+	      comment->appendf("; [0x%04x]= 0x%04x", a, peek_addr(rom,a));
 	    }
 	  if (strcmp(fmt.c_str(), "nnz_8") == 0)
 	    {
-	      nn= read_addr(rom, addr+1);
+	      nn= peek_addr(rom, addr+1);
 	      a= nn+rZ;
 	      a&= 0xffff;
 	      word->appendf("0x%04x,z", nn);
@@ -285,11 +285,11 @@ cl_f8::disassc(t_addr addr, chars *comment)
 	    }
 	  if (strcmp(fmt.c_str(), "nnz_16") == 0)
 	    {
-	      nn= read_addr(rom, addr+1);
+	      nn= peek_addr(rom, addr+1);
 	      a= nn+rZ;
 	      a&= 0xffff;
 	      word->appendf("0x%04x,z", nn);
-	      comment->appendf("; [0x%04x]= 0x%04x", a, read_addr(rom,a));
+	      comment->appendf("; [0x%04x]= 0x%04x", a, peek_addr(rom,a));
 	    }
 	  if (strcmp(fmt.c_str(), "z_8") == 0)
 	    {
@@ -303,7 +303,7 @@ cl_f8::disassc(t_addr addr, chars *comment)
 	      a= rZ;
 	      a&= 0xffff;
 	      word->appendf("z");
-	      comment->appendf("; [0x%04x]= 0x%04x", a, read_addr(rom,a));
+	      comment->appendf("; [0x%04x]= 0x%04x", a, peek_addr(rom,a));
 	    }
 	  if (strcmp(fmt.c_str(), "y_8") == 0)
 	    {
@@ -315,7 +315,7 @@ cl_f8::disassc(t_addr addr, chars *comment)
 	    {
 	      a= rY;
 	      word->appendf("y");
-	      comment->appendf("; [0x%04x]= 0x%04x", a, read_addr(rom,a));
+	      comment->appendf("; [0x%04x]= 0x%04x", a, peek_addr(rom,a));
 	    }
 	  if (strcmp(fmt.c_str(), "ny_8") == 0)
 	    {
@@ -331,7 +331,7 @@ cl_f8::disassc(t_addr addr, chars *comment)
 	      a= rY+l;
 	      a&= 0xffff;
 	      word->appendf("0x%02x,sp", l);
-	      comment->appendf("; [0x%04x]= 0x%04x", a, read_addr(rom,a));
+	      comment->appendf("; [0x%04x]= 0x%04x", a, peek_addr(rom,a));
 	    }
 	  if (strcmp(fmt.c_str(), "nA_16") == 0)
 	    {
@@ -339,15 +339,15 @@ cl_f8::disassc(t_addr addr, chars *comment)
 	      a= a16(prefs)+l;
 	      a&= 0xffff;
 	      word->appendf("0x%02x,%s", l, a16_name(prefs));
-	      comment->appendf("; [0x%04x]= 0x%04x", a, read_addr(rom,a));
+	      comment->appendf("; [0x%04x]= 0x%04x", a, peek_addr(rom,a));
 	    }
 	  if (strcmp(fmt.c_str(), "nnA_16") == 0)
 	    {
-	      nn= read_addr(rom, addr+1);
+	      nn= peek_addr(rom, addr+1);
 	      a= a16(prefs)+nn;
 	      a&= 0xffff;
 	      word->appendf("0x%04x,%s", nn, a16_name(prefs));
-	      comment->appendf("; [0x%04x]= 0x%04x", a, read_addr(rom,a));
+	      comment->appendf("; [0x%04x]= 0x%04x", a, peek_addr(rom,a));
 	    }
 
 	  continue;
diff --git a/src/sims/i8085.src/i8080.cc b/src/sims/i8085.src/i8080.cc
index 64b0b36..7fc00ab 100644
--- a/src/sims/i8085.src/i8080.cc
+++ b/src/sims/i8085.src/i8080.cc
@@ -261,7 +261,7 @@ cl_i8080::dis_rp16(chars *comment, int rp)
     }
   if (comment->empty())
     *comment= "; ";
-  comment->appendf("[0x%04x]= 0x%04x", a, read_addr(rom, a));
+  comment->appendf("[0x%04x]= 0x%04x", a, peek_addr(rom, a));
 }
 
 char *
@@ -329,7 +329,7 @@ cl_i8080::disassc(t_addr addr, chars *comment)
 	    }
 	  if (strcmp(fmt.c_str(), "i16") == 0)
 	    {
-	      work.appendf("0x%04x", read_addr(rom, addr+1));
+	      work.appendf("0x%04x", peek_addr(rom, addr+1));
 	    }
 	  if (strcmp(fmt.c_str(), "rp5") == 0)
 	    {
@@ -353,25 +353,25 @@ cl_i8080::disassc(t_addr addr, chars *comment)
 	    }
 	  if (strcmp(fmt.c_str(), "a16") == 0)
 	    {
-	      a= read_addr(rom, addr+1);
+	      a= peek_addr(rom, addr+1);
 	      work.appendf("0x%04x", a);
 	    }
 	  if (strcmp(fmt.c_str(), "a16_8") == 0)
 	    {
-	      a= read_addr(rom, addr+1);
+	      a= peek_addr(rom, addr+1);
 	      work.appendf("0x%04x", a);
 	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->get(a));
 	    }
 	  if (strcmp(fmt.c_str(), "a16_16") == 0)
 	    {
-	      a= read_addr(rom, addr+1);
+	      a= peek_addr(rom, addr+1);
 	      work.appendf("0x%04x", a);
-	      comment->appendf("; [0x%04x]= 0x%04x", a, read_addr(rom, a));
+	      comment->appendf("; [0x%04x]= 0x%04x", a, peek_addr(rom, a));
 	    }
 	  if (strcmp(fmt.c_str(), "de16") == 0)
 	    {
 	      a= rDE;
-	      comment->appendf("; [0x%04x]= 0x%04x", a, read_addr(rom, a));
+	      comment->appendf("; [0x%04x]= 0x%04x", a, peek_addr(rom, a));
 	    }
 	  if (strcmp(fmt.c_str(), "rst") == 0)
 	    {
diff --git a/src/sims/m68hc12.src/dis.cc b/src/sims/m68hc12.src/dis.cc
index c5fcfc7..1aa33d8 100644
--- a/src/sims/m68hc12.src/dis.cc
+++ b/src/sims/m68hc12.src/dis.cc
@@ -201,17 +201,17 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	    }
 	  if (strcmp(fmt.c_str(), "IMEX") == 0)
 	    {
-	      u16_t i= read_addr(rom, addr+2);
-	      u16_t e= read_addr(rom, addr+4);
+	      u16_t i= peek_addr(rom, addr+2);
+	      u16_t e= peek_addr(rom, addr+4);
 	      work.appendf("#$%04x", i);
 	      work.append(", ");
 	      work.appendf("$%04x", e);
-	      comment->appendf("; [%04x]=%04x", e, read_addr(rom, e));
+	      comment->appendf("; [%04x]=%04x", e, peek_addr(rom, e));
 	    }
 	  if (strcmp(fmt.c_str(), "imex") == 0)
 	    {
 	      u8_t i= rom->get(addr+2);
-	      u16_t e= read_addr(rom, addr+3);
+	      u16_t e= peek_addr(rom, addr+3);
 	      work.appendf("#$%02x", i);
 	      work.append(", ");
 	      work.appendf("$%04x", e);
@@ -219,19 +219,19 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	    }
 	  if (strcmp(fmt.c_str(), "EXEX") == 0)
 	    {
-	      u16_t s= read_addr(rom, addr+2);
-	      u16_t d= read_addr(rom, addr+4);
+	      u16_t s= peek_addr(rom, addr+2);
+	      u16_t d= peek_addr(rom, addr+4);
 	      work.appendf("$%04x", s);
 	      work.append(", ");
 	      work.appendf("$%04x", d);
 	      comment->appendf("; [%04x]=%04x [%04x]=%04x",
-			       s, read_addr(rom, s),
-			       d, read_addr(rom, d));
+			       s, peek_addr(rom, s),
+			       d, peek_addr(rom, d));
 	    }
 	  if (strcmp(fmt.c_str(), "exex") == 0)
 	    {
-	      u16_t s= read_addr(rom, addr+2);
-	      u16_t d= read_addr(rom, addr+4);
+	      u16_t s= peek_addr(rom, addr+2);
+	      u16_t d= peek_addr(rom, addr+4);
 	      work.appendf("$%04x", s);
 	      work.append(", ");
 	      work.appendf("$%04x", d);
@@ -249,7 +249,7 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	      disass_xb(&aof_xb, &work, comment, 2, xb_PC(xb)?-2:0);
 	      work.append(", ");
 	      work.appendf("$%04x", adst= h*256+l);
-	      comment->appendf(" [%04x]=%04x", adst, read_addr(rom,adst));
+	      comment->appendf(" [%04x]=%04x", adst, peek_addr(rom, adst));
 	    }
 	  if (strcmp(fmt.c_str(), "idex") == 0)
 	    {
@@ -265,12 +265,12 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	    }
 	  if (strcmp(fmt.c_str(), "em") == 0) // EMACS
 	    {
-	      u16_t a= read_addr(rom, addr+2);
-	      u32_t m= (read_addr(rom, a)<<16) + (read_addr(rom, a+2));
+	      u16_t a= peek_addr(rom, addr+2);
+	      u32_t m= (peek_addr(rom, a)<<16) + (peek_addr(rom, a+2));
 	      work.appendf("$%04x", a);
 	      comment->appendf("; [X=%04x]=%04x,%+d [Y=%04x]=%04x,%+d [%04x]=%08x,%+d",
-			       rX, read_addr(rom, rX), (int)read_addr(rom, rX),
-			       rY, read_addr(rom, rY), (int)read_addr(rom, rY),
+			       rX, peek_addr(rom, rX), (int)peek_addr(rom, rX),
+			       rY, peek_addr(rom, rY), (int)peek_addr(rom, rY),
 			       a, m, int(m));
 	    }
 	  continue;
@@ -291,7 +291,7 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	      if (b[i]=='x')
 		temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      else
-		temp.appendf("; [$%04x]=$%04x", a, read_addr(rom, a));
+		temp.appendf("; [$%04x]=$%04x", a, peek_addr(rom, a));
 	      break;
 	    case 'e': case 'E': // extended
 	      h= rom->get(addr+1);
@@ -303,7 +303,7 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 		temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      else
 		temp.appendf("; [$%04x]=$%04x", a,
-			     read_addr(rom, a));
+			     peek_addr(rom, a));
 	      break;
 	    case 'd': case 'D': // direct
 	      h= a= rom->get(addr+1);
@@ -313,7 +313,7 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 		temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      else
 	        temp.appendf("; [$%04x]=$%04x", a,
-			     read_addr(rom, a));
+			     peek_addr(rom, a));
 	      break;
 	    case 'b': // immediate 8 bit
 	      work.appendf("#$%02x",
@@ -321,7 +321,7 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	      break;
 	    case 'B': // immediate 16 bit
 	      work.appendf("#$%04x",
-			   read_addr(rom, addr+1));
+			   peek_addr(rom, addr+1));
 	      break;
 	    case 'r': // relative 8 bit offset
 	      work.appendf("$%04x",
diff --git a/src/sims/mos6502.src/mos6502.cc b/src/sims/mos6502.src/mos6502.cc
index ed87e1f..88c4746 100644
--- a/src/sims/mos6502.src/mos6502.cc
+++ b/src/sims/mos6502.src/mos6502.cc
@@ -309,7 +309,7 @@ cl_mos6502::disassc(t_addr addr, chars *comment)
 	      addr_name(l, rom, &work);
 	      work.append(",X)");
 	      l+= rX;
-	      a= read_addr(rom, l);
+	      a= peek_addr(rom, l);
 	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
 	    case 'y': // (ind),Y
@@ -317,7 +317,7 @@ cl_mos6502::disassc(t_addr addr, chars *comment)
 	      work.appendf("($%02x", l);
 	      addr_name(l, rom, &work);
 	      work.append(",Y)");
-	      a= read_addr(rom, l) + rY;
+	      a= peek_addr(rom, l) + rY;
 	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
 	    case 'a': // abs
@@ -350,7 +350,7 @@ cl_mos6502::disassc(t_addr addr, chars *comment)
 	      work.appendf("($%04x", a);
 	      addr_name(a, rom, &work);
 	      work.append(")");
-	      temp.appendf("; [$%04x]=$%04x", a, read_addr(rom, a));
+	      temp.appendf("; [$%04x]=$%04x", a, peek_addr(rom, a));
 	      break;
 	    case 'z': // zpg
 	      l= rom->get(addr+1);
@@ -397,7 +397,7 @@ cl_mos6502::disassc(t_addr addr, chars *comment)
 	      a= h*256+l;
 	      work.appendf("($%04x,X)", a);
 	      a+= rX;
-	      temp.appendf("; [$%04x]=$%04x", a, read_addr(rom, a));
+	      temp.appendf("; [$%04x]=$%04x", a, peek_addr(rom, a));
 	      break;
 	    case 'i': // abs,X
 	      l= rom->get(addr+1);
@@ -446,15 +446,15 @@ cl_mos6502::disassc(t_addr addr, chars *comment)
 	      work.appendf("#$%02x", l);
 	      break;
 	    case '3': // (ind16)
-	      a= read_addr(rom, addr+1);
-	      a= read_addr(rom, a);
+	      a= peek_addr(rom, addr+1);
+	      a= peek_addr(rom, a);
 	      work.appendf("($%04x)", a);
 	      addr_name(a, rom, &work);
 	      break;
 	    case '4': // (zind)
 	      a= rom->get(addr+1);
 	      work.appendf("($%04x)", a);
-	      a= read_addr(rom, a);
+	      a= peek_addr(rom, a);
 	      addr_name(a, rom, &work);
 	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
diff --git a/src/sims/tlcs.src/t870c.cc b/src/sims/tlcs.src/t870c.cc
index 7d6a77f..b1e4c39 100644
--- a/src/sims/tlcs.src/t870c.cc
+++ b/src/sims/tlcs.src/t870c.cc
@@ -569,7 +569,7 @@ cl_t870c::disassc(t_addr addr, chars *comment)
 	      a+= n*2;
 	      work.appendf("%d", n);
 	      if (comment)
-		comment->appendf("; [%04x]=%04x", a, get16(a));
+		comment->appendf("; [%04x]=%04x", a, peek_addr(rom, a));
 	    }
 	  continue;
 	}
diff --git a/src/sims/z80.src/gb80.cc b/src/sims/z80.src/gb80.cc
index b25cf40..dafba9c 100644
--- a/src/sims/z80.src/gb80.cc
+++ b/src/sims/z80.src/gb80.cc
@@ -425,17 +425,17 @@ cl_gb80::print_regs(class cl_console_base *con)
   con->dd_printf("%s\n", cbin(regs.raf.F,8).c_str());
 		 
   con->dd_printf("BC= 0x%04x [BC]= %02x %3d %c  ",
-                 regs.BC, get1(regs.BC), get1(regs.BC),
-                 isprint(get1(regs.BC))?get1(regs.BC):'.');
+                 regs.BC, rom->get(regs.BC), rom->get(regs.BC),
+                 isprint(rom->get(regs.BC))?rom->get(regs.BC):'.');
   con->dd_printf("DE= 0x%04x [DE]= %02x %3d %c  ",
-                 regs.DE, get1(regs.DE), get1(regs.DE),
-                 isprint(get1(regs.DE))?get1(regs.DE):'.');
+                 regs.DE, rom->get(regs.DE), rom->get(regs.DE),
+                 isprint(rom->get(regs.DE))?rom->get(regs.DE):'.');
   con->dd_printf("HL= 0x%04x [HL]= %02x %3d %c\n",
-                 regs.HL, get1(regs.HL), get1(regs.HL),
-                 isprint(get1(regs.HL))?get1(regs.HL):'.');
+                 regs.HL, rom->get(regs.HL), rom->get(regs.HL),
+                 isprint(rom->get(regs.HL))?rom->get(regs.HL):'.');
   con->dd_printf("SP= 0x%04x [SP]= %02x %3d %c\n",
-                 regs.SP, get1(regs.SP), get1(regs.SP),
-                 isprint(get1(regs.SP))?get1(regs.SP):'.');
+                 regs.SP, rom->get(regs.SP), rom->get(regs.SP),
+                 isprint(rom->get(regs.SP))?rom->get(regs.SP):'.');
 
   print_disass(PC, con);
 }
-- 
2.43.0


From ededfc887816c0592c94aeddbbb78c5e15921274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:28 +0000
Subject: [PATCH 036/106] fix: BIT of Z80 wrote its memory operand

---
 src/sims/z80.src/inst_cb.cc   | 2 --
 src/sims/z80.src/inst_xxcb.cc | 3 ---
 2 files changed, 5 deletions(-)

diff --git a/src/sims/z80.src/inst_cb.cc b/src/sims/z80.src/inst_cb.cc
index efc1ecc..395e15e 100644
--- a/src/sims/z80.src/inst_cb.cc
+++ b/src/sims/z80.src/inst_cb.cc
@@ -374,9 +374,7 @@ cl_z80::inst_cb_bit(t_mem code)
 	unsigned char tmp;
         tmp = get1(regs.HL);
         bit_byte(tmp, bit_bitnum);
-        store1(regs.HL, tmp);
 	vc.rd++;
-	vc.wr++;
         //tick(4);
 	break;
       }
diff --git a/src/sims/z80.src/inst_xxcb.cc b/src/sims/z80.src/inst_xxcb.cc
index f32d7f3..971dfbd 100644
--- a/src/sims/z80.src/inst_xxcb.cc
+++ b/src/sims/z80.src/inst_xxcb.cc
@@ -407,9 +407,6 @@ cl_z80::inst_XXcb_bit(t_mem code)
   tmp = get1(addr);
   bit_byte(tmp, bit_bitnum);
   vc.rd++;
-  
-  store1(addr, tmp);
-  vc.wr++;
 
   //tick(19);
   return(resGO);
-- 
2.43.0


From 788ee875843a9a726b389fddd12f40a2d91ff5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:28 +0000
Subject: [PATCH 037/106] fix: read-modify-write instructions, TST and JMP of
 6809 read memory once more than needed

---
 src/sims/m6809.src/m6809.cc | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index 747b0a3..98e41ba 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -2078,9 +2078,7 @@ cl_m6809::inst_low(t_mem code)
     {
     case 0x00: // direct
       ea= reg.DP*256 + fetch();
-      op8= rom->read(ea);
       tick(2);
-      vc.rd++;
       break;
     case 0x60: // index
       {
@@ -2089,16 +2087,12 @@ cl_m6809::inst_low(t_mem code)
 	tick(1);
 	if ((r= index2ea(idx, &ea)) != resGO)
 	  return r;
-	op8= rom->read(ea);
 	tick(1);
-	vc.rd++;
 	break;
       }
     case 0x70: // extend
       ea= fetch()*256 + fetch();
-      op8= rom->read(ea);
       tick(3);
-      vc.rd++;
       break;
     }
 
-- 
2.43.0


From bc2c8a02aedd8f2fd3a701aa73898a33201884fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:37 +0000
Subject: [PATCH 038/106] fix: event breaks are handled after interrupt
 acceptance, so the stop is reported where the machine is

---
 src/core/sim.src/sim.cc | 2 ++
 src/core/sim.src/uc.cc  | 2 --
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/sim.src/sim.cc b/src/core/sim.src/sim.cc
index f40ffb3..89455b4 100644
--- a/src/core/sim.src/sim.cc
+++ b/src/core/sim.src/sim.cc
@@ -125,6 +125,8 @@ cl_sim::step(void)
 	start_at= dnow();
 
       res= uc->do_inst(); 
+      if (uc->events->count)
+	uc->check_events();
 
       //if (res < resSTOP)
 	steps_done++;
diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index c425ebf..356208f 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -3392,8 +3392,6 @@ cl_uc::post_inst(void)
   tick_hw(inst_ticks);
   if (errors->count)
     check_errors();
-  if (events->count)
-    check_events();
   inst_exec= false;
 }
 
-- 
2.43.0


From 1bb4cb6b6889a6f395bd490dc712eddf2b529d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:37 +0000
Subject: [PATCH 039/106] fix: deleted event breakpoints left their hits
 behind, temporary ones were not deleted, delete hung at invalid addresses

---
 src/core/sim.src/uc.cc  | 35 ++++++++++++++++++++++-------------
 src/core/sim.src/uccl.h |  1 +
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 356208f..a14ac0c 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -3779,10 +3779,20 @@ cl_uc::rm_ebrk(t_addr addr, char *id)
       eb= (class cl_ev_brk *)(ebrk->at(i));
       if (eb->addr == addr &&
 	  !strcmp(eb->id, id))
-	ebrk->del_bp(i, 0);
+	rm_ebrk(eb);
     }
 }
 
+/* Remove an event breakpoint and its hits that are not handled yet */
+
+void
+cl_uc::rm_ebrk(class cl_brk *bp)
+{
+  while (events->index_of(bp, NULL))
+    events->disconn(bp);
+  ebrk->del_bp(ebrk->index_of(bp), 0);
+}
+
 /* Remove a breakpoint specified by its number */
 
 bool
@@ -3792,12 +3802,12 @@ cl_uc::rm_brk(int nr)
 
   if ((bp= brk_by_nr(fbrk, nr)))
     {
-      fbrk->del_bp(bp->addr);
+      fbrk->del_bp(fbrk->index_of(bp), 0);
       return(true);
     }
   else if ((bp= brk_by_nr(ebrk, nr)))
     {
-      ebrk->del_bp(ebrk->index_of(bp), 0);
+      rm_ebrk(bp);
       return(true);
     }
   return(false);
@@ -3813,12 +3823,9 @@ void
 cl_uc::remove_all_breaks(void)
 {
   while (fbrk->count)
-    {
-      class cl_brk *brk= (class cl_brk *)(fbrk->at(0));
-      fbrk->del_bp(brk->addr);
-    }
+    fbrk->del_bp(0, 0);
   while (ebrk->count)
-    ebrk->del_bp(ebrk->count-1, 0);
+    rm_ebrk((class cl_brk *)(ebrk->at(ebrk->count-1)));
 }
 
 int
@@ -3859,14 +3866,16 @@ cl_uc::mk_ebrk(enum brk_perm perm, class cl_memory_cell *cell,
 void
 cl_uc::check_events(void)
 {
-  int i;
   if (events->count)
     sim->stop(resEVENTBREAK);
-  for (i= 0; i < events->count; i++)
+  while (events->count)
     {
-      class cl_ev_brk *brk=
-	(class cl_ev_brk *)(events->object_at(i));
-      brk->breaking();
+      class cl_ev_brk *brk= (class cl_ev_brk *)(events->at(0));
+      events->disconn_at(0);
+      if (brk->perm == brkDYNAMIC)
+	rm_ebrk(brk);
+      else
+	brk->breaking();
     }
 }
 
diff --git a/src/core/sim.src/uccl.h b/src/core/sim.src/uccl.h
index 27ed985..a1b94f7 100644
--- a/src/core/sim.src/uccl.h
+++ b/src/core/sim.src/uccl.h
@@ -486,6 +486,7 @@ public:
   virtual class cl_brk *brk_by_nr(int nr);
   virtual class cl_brk *brk_by_nr(class brk_coll *bpcoll, int nr);
   virtual void rm_ebrk(t_addr addr, char *id);
+  virtual void rm_ebrk(class cl_brk *bp);
   virtual bool rm_brk(int nr);
   virtual void put_breaks(void);
   virtual void remove_all_breaks(void);
-- 
2.43.0


From d3de149cbc05ea6bac95e3a5b5d8d1fc0c25717d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:53 +0000
Subject: [PATCH 040/106] fix: guest selecting only missing FPPs hung the PDK
 simulator

---
 src/sims/pdk.src/pdk.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/pdk.src/pdk.cc b/src/sims/pdk.src/pdk.cc
index 57ece93..11d46a0 100644
--- a/src/sims/pdk.src/pdk.cc
+++ b/src/sims/pdk.src/pdk.cc
@@ -863,8 +863,6 @@ cl_pdk::set_fppen(u8_t val)
 {
   int i, n;
   u8_t m;
-  if (val == 0)
-    val= 1;
   for (i=0, m=1, n=0; i<8; i++, m<<=1)
     {
       if (fpps[i] == NULL)
@@ -872,6 +870,8 @@ cl_pdk::set_fppen(u8_t val)
       else
 	n++;
     }
+  if (val == 0)
+    val= 1;
   single= n==1;
   return val;
 }
-- 
2.43.0


From 8dd52d8437ef16966889a34f497c6f86efb87431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:53 +0000
Subject: [PATCH 041/106] fix: TLCS870C1 allocates both register banks; printf
 format in 870C disassembly

---
 src/sims/tlcs.src/t870c.cc  | 2 +-
 src/sims/tlcs.src/t870c1.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/tlcs.src/t870c.cc b/src/sims/tlcs.src/t870c.cc
index b1e4c39..98d6fc1 100644
--- a/src/sims/tlcs.src/t870c.cc
+++ b/src/sims/tlcs.src/t870c.cc
@@ -441,7 +441,7 @@ cl_t870c::disassc(t_addr addr, chars *comment)
 	      if (comment)
 		{
 		  u16_t a= aof_dstF(code32);
-		  comment->appendf("; [%04] %02x %02x",
+		  comment->appendf("; [%04x] %02x %02x",
 				   a, asd->get(a), asd->get(a+1));
 		}
 	    }
diff --git a/src/sims/tlcs.src/t870c1.cc b/src/sims/tlcs.src/t870c1.cc
index f4bcb17..e072b08 100644
--- a/src/sims/tlcs.src/t870c1.cc
+++ b/src/sims/tlcs.src/t870c1.cc
@@ -111,7 +111,7 @@ cl_t870c1::part_init(void)
 void
 cl_t870c1::mk_rbanks(void)
 {
-  rbanks= (struct rbank_870c_t *)malloc(sizeof(*rbanks));
+  rbanks= (struct rbank_870c_t *)malloc(2 * sizeof(*rbanks));
   rbank= &rbanks[0];
   act_rbs= 0;
 }
-- 
2.43.0


From 6936886fc1956f03409b4411e946592464bdeb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:53 +0000
Subject: [PATCH 042/106] fix: unmapped PC16550 dereferenced null register
 pointers

---
 src/core/sim.src/pc16550.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/core/sim.src/pc16550.cc b/src/core/sim.src/pc16550.cc
index 197044f..2c18e64 100644
--- a/src/core/sim.src/pc16550.cc
+++ b/src/core/sim.src/pc16550.cc
@@ -186,7 +186,7 @@ cl_pc16550::set_cmd(class cl_cmdline *cmdline,
       t_addr a= params[1]->value.address;
       if (!mem->is_address_space())
 	{
-	  con->dd_printf("%s is not an address space\n");
+	  con->dd_printf("%s is not an address space\n", mem->get_name("?"));
 	  return true;
 	}
       if (!mem->valid_address(a))
@@ -204,6 +204,11 @@ cl_pc16550::set_cmd(class cl_cmdline *cmdline,
     {
       int i;
       t_addr a= params[0]->value.number;
+      if (!as)
+	{
+	  con->dd_printf("Address space is not selected\n");
+	  return true;
+	}
       if (!as->valid_address(a))
 	{
 	  con->dd_printf("Address must be between 0x%x and 0x%x\n",
@@ -233,6 +238,10 @@ cl_pc16550::tick(int cycles)
   if (!on)
     return 0;
 
+  if (!as)
+    // not mapped: there are no registers to work with
+    return 0;
+
   if (!prediv_bitcnt(cycles))
     return 0;
   
-- 
2.43.0


From f5fa61120373b379d5b3a814cb5a2d0c1442df73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:27 +0000
Subject: [PATCH 043/106] fix: MDU of C517/XC88x hung normalising 0x80000000
 (signed overflow)

---
 src/sims/s51.src/mdu.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sims/s51.src/mdu.cc b/src/sims/s51.src/mdu.cc
index f7801f4..bb8df84 100644
--- a/src/sims/s51.src/mdu.cc
+++ b/src/sims/s51.src/mdu.cc
@@ -39,7 +39,7 @@ cl_mdu::cl_mdu(class cl_uc *auc, int aid):
 void
 cl_mdu::op_32udiv16(void)
 {
-  u32_t dend= v[3]*256*256*256 + v[2]*256*256 + v[1]*256 + v[0];
+  u32_t dend= (u32_t)v[3]*256*256*256 + v[2]*256*256 + v[1]*256 + v[0];
   u16_t dor= v[5]*256 + v[4];
   u32_t quo= 0;
   u16_t rem= 0;
@@ -112,7 +112,7 @@ cl_mdu::op_norm(void)
 {
   u32_t d;
   
-  d= v[3]*256*256*256 + v[2]*256*256 + v[1]*256 + v[0];
+  d= (u32_t)v[3]*256*256*256 + v[2]*256*256 + v[1]*256 + v[0];
   if (d == 0)
     set_steps(0);
   else if (d & 0x80000000)
@@ -138,7 +138,7 @@ cl_mdu::op_lshift(void)
 {
   u32_t d;
   
-  d= v[3]*256*256*256 + v[2]*256*256 + v[1]*256 + v[0];
+  d= (u32_t)v[3]*256*256*256 + v[2]*256*256 + v[1]*256 + v[0];
   if (dir_right())
     d<<= get_steps();
   else
@@ -513,7 +513,7 @@ cl_mdu88x::tick(int cycles)
 void
 cl_mdu88x::op_32sdiv16(void)
 {
-  i32_t dend= v[3]*256*256*256 + v[2]*256*256 + v[1]*256 + v[0];
+  i32_t dend= (u32_t)v[3]*256*256*256 + v[2]*256*256 + v[1]*256 + v[0];
   i16_t dor= v[5]*256 + v[4];
   i64_t quo= 0;			// -2^31 / -1 does not fit in 32 bits
   i16_t rem= 0;
@@ -588,7 +588,7 @@ cl_mdu88x::op_ashift(void)
 {
   i32_t d;
   
-  d= v[3]*256*256*256 + v[2]*256*256 + v[1]*256 + v[0];
+  d= (u32_t)v[3]*256*256*256 + v[2]*256*256 + v[1]*256 + v[0];
   if (dir_right())
     d<<= get_steps();
   else
-- 
2.43.0


From b5e9c560c68977256fe8017b67588c3ff8966445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:53 +0000
Subject: [PATCH 044/106] fix: DEC @Ri of 8051 bypassed memory operators (event
 breakpoints missed it)

---
 src/sims/s51.src/inc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/s51.src/inc.cc b/src/sims/s51.src/inc.cc
index d64c324..f6b72a0 100644
--- a/src/sims/s51.src/inc.cc
+++ b/src/sims/s51.src/inc.cc
@@ -152,7 +152,7 @@ cl_51core::instruction_16/*inst_dec_Sri*/(t_mem/*uchar*/ code)
   class cl_memory_cell *cell;
 
   cell= iram->get_cell(R[code & 0x01]->read());
-  cell->set(cell->get() - 1);
+  cell->write(cell->read() - 1);
   vc.rd++;//= 2;
   vc.wr++;
   return(resGO);
-- 
2.43.0


From 83133d1f05d64cc0d91d3f27089e6b0e47986a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:53 +0000
Subject: [PATCH 045/106] fix: 8051 code addresses of MOVC and JMP @A+DPTR wrap
 at 64K; validate_address was off by one

---
 src/core/sim.src/mem.cc | 2 +-
 src/sims/s51.src/mov.cc | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index cc4f5ea..229e70b 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -179,7 +179,7 @@ cl_memory::validate_address(t_addr addr)
 {
   while (addr < start_address)
     addr+= size;
-  if (addr > start_address+size)
+  if (addr >= start_address+size)
     {
       addr-= start_address;
       addr%= size;
diff --git a/src/sims/s51.src/mov.cc b/src/sims/s51.src/mov.cc
index 19c912e..6361901 100644
--- a/src/sims/s51.src/mov.cc
+++ b/src/sims/s51.src/mov.cc
@@ -123,7 +123,7 @@ cl_51core::instruction_78/*inst_mov_rn_Sdata*/(t_mem/*uchar*/ code)
 int
 cl_51core::instruction_83/*inst_movc_a_Sa_pc*/(t_mem/*uchar*/ code)
 {
-  acc->write(rom->read(PC + acc->read()));
+  acc->write(rom->read((PC + acc->read()) & 0xffff));
   tick(1);
   vc.rd++;
   //vc.wr++;
@@ -222,7 +222,7 @@ cl_51core::instruction_93/*inst_movc_a_Sa_dptr*/(t_mem/*uchar*/ code)
 {
   u16_t h= /*sfr*/dptr->read(/*DPH*/1);
   u16_t l= /*sfr*/dptr->read(/*DPL*/0);
-  acc->write(rom->read(h*256 + l +  acc->read()));
+  acc->write(rom->read((h*256 + l + acc->read()) & 0xffff));
   tick(1);
   vc.rd+= 3;//4;
   //vc.wr++;
-- 
2.43.0


From 8d7d4d5d855a8ab227394b42a0ad1d9ddd1d556f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:53 +0000
Subject: [PATCH 046/106] fix: 8051 port write reported its change twice
 (counters counted two edges)

---
 src/sims/s51.src/port.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sims/s51.src/port.cc b/src/sims/s51.src/port.cc
index 03ef499..0a15dc5 100644
--- a/src/sims/s51.src/port.cc
+++ b/src/sims/s51.src/port.cc
@@ -178,7 +178,9 @@ cl_port::write(class cl_memory_cell *cell, t_mem *val)
 	cfg->write(port_value, port_pins & nv);
     }
 
-  conf(cell, val);
+  if (conf(cell, val))
+    // latch is not changed here, events are generated by conf_op
+    return;
   
   ep.id= id;
   ep.addr= addr_p;
-- 
2.43.0


From b04e6720b86de7100856a556fc6699fdf8398be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:53 +0000
Subject: [PATCH 047/106] fix: 8051 timer 0/1 count 1->0 edges; edges are not
 lost by writing TCON/TMOD

---
 src/sims/s51.src/timer0.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/sims/s51.src/timer0.cc b/src/sims/s51.src/timer0.cc
index 1ea1212..e299e69 100644
--- a/src/sims/s51.src/timer0.cc
+++ b/src/sims/s51.src/timer0.cc
@@ -176,14 +176,16 @@ cl_timer0::write(class cl_memory_cell *cell, t_mem *val)
       else
 	mode= 0;
       GATE= *val & mask_GATE;
+      if (C_T != (*val & mask_C_T))
+	T_edge= 0;
       C_T = *val & mask_C_T;
-      T_edge= 0;
     }
   else if ((cell == cell_tcon) ||
 	   b)
     {
+      if (TR != (n & mask_TR))
+	T_edge= 0;
       TR= n & mask_TR;
-      T_edge= 0;
     }
 }
 
@@ -213,6 +215,8 @@ cl_timer0::tick(int cycles)
     case 2: do_mode2(cycles); break;
     case 3: do_mode3(cycles); break;
     }
+  // edges which are not counted (stopped, gated) are lost
+  T_edge= 0;
   return(resGO);
 }
 
@@ -395,8 +399,8 @@ cl_timer0::happen(class cl_hw *where, enum hw_event he, void *params)
     {
       t_mem p3n= ep->new_pins & ep->new_value;
       t_mem p3o= ep->pins & ep->prev_value;
-      if ((p3n & mask_T) &&
-	  !(p3o & mask_T))
+      if (!(p3n & mask_T) &&
+	  (p3o & mask_T))
 	T_edge++;
       INT= p3n & mask_INT;
       //printf("timer%d p%dchanged (%02x,%02x->%02x,%02x) INT=%d(%02x) edge=%d(%02x)\n",id,where->id,ep->prev_value,ep->pins,ep->new_value,ep->new_pins,INT,mask_INT,T_edge,mask_T);
-- 
2.43.0


From 8af362e3af03e175c1f4f4d78eb2c06787ad9df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:53 +0000
Subject: [PATCH 048/106] fix: 8052 timer 2 counts only edges in counter mode,
 mode depends on T2CON and T2MOD together, EXF2 toggles when counting down

---
 src/sims/s51.src/timer2.cc  | 98 ++++++++++++++++++++++---------------
 src/sims/s51.src/timer2cl.h |  2 +
 src/sims/s51.src/uc52.cc    |  1 +
 3 files changed, 61 insertions(+), 40 deletions(-)

diff --git a/src/sims/s51.src/timer2.cc b/src/sims/s51.src/timer2.cc
index ef4a20e..885151d 100644
--- a/src/sims/s51.src/timer2.cc
+++ b/src/sims/s51.src/timer2.cc
@@ -36,6 +36,10 @@ cl_timer2::cl_timer2(class cl_uc *auc, int aid, const char *aid_string,
 {
   features= afeatures;
   exf2it= 0;
+  mode= T2MODE_RELOAD;
+  C_T= TR= RCLK= TCLK= CP_RL2= EXEN2= 0;
+  T_edge= t2ex_edge= 0;
+  bit_dcen= bit_t2oe= bit_t2ex= false;
   mask_RCLK= bmRCLK;
   mask_TCLK= bmTCLK;
   mask_CP_RL2= bmCP_RL2;
@@ -83,7 +87,7 @@ void
 cl_timer2::write(class cl_memory_cell *cell, t_mem *val)
 {
   int oldmode= mode;
-  bool oldtr= TR;
+  bool oldtr= TR, oldct= C_T, oldexen2= EXEN2;
   t_addr ba;
   bool b= bas->is_owned(cell, &ba);
   t_mem n= *val;
@@ -97,8 +101,6 @@ cl_timer2::write(class cl_memory_cell *cell, t_mem *val)
       else
 	n&= ~m;
     }
-  if (exf2it)
-    exf2it->activate();
   if ((cell == cell_tcon) ||
       b)
     {
@@ -108,38 +110,50 @@ cl_timer2::write(class cl_memory_cell *cell, t_mem *val)
       TCLK= n & mask_TCLK;
       CP_RL2= n & mask_CP_RL2;
       EXEN2 = n & bmEXEN2;
-      if (!(RCLK || TCLK) &&
-	  !CP_RL2)
-	mode= T2MODE_RELOAD;
-      else if (!(RCLK || TCLK) &&
-	       CP_RL2)
-	mode= T2MODE_CAPTURE;
-      else if (RCLK || TCLK)
-	mode= T2MODE_BAUDRATE;
-      else
-	mode= T2MODE_OFF;
+      pick_mode();
       inform_partners(EV_T2_MODE_CHANGED, &n);
     }
   else if (cell == cell_t2mod)
     {
       bit_dcen= (*val & bmDCEN) != 0;
       bit_t2oe= (*val & bmT2OE) != 0;
-      if ((features & t2_down) &&
-	  bit_dcen &&
-	  mode == T2MODE_RELOAD)
-	{
-	  mode= T2MODE_DOWN;
-	  if (exf2it)
-	    exf2it->deactivate();
-	}
-      if ((features & t2_clock_out) &&
-          bit_t2oe)
-        mode= T2MODE_CLKOUT;
+      pick_mode();
     }
   if ((mode != oldmode) ||
       (TR && !oldtr) ||
       (!TR && oldtr))
     T_edge= t2ex_edge= 0;
+  if ((C_T != 0) != oldct)
+    T_edge= 0;
+  if ((EXEN2 != 0) != oldexen2)
+    t2ex_edge= 0;
+}
+
+/* Mode is selected by bits of T2CON and T2MOD together */
+
+void
+cl_timer2::pick_mode(void)
+{
+  if (RCLK || TCLK)
+    mode= T2MODE_BAUDRATE;
+  else if (CP_RL2)
+    mode= T2MODE_CAPTURE;
+  else if ((features & t2_down) &&
+	   bit_dcen)
+    mode= T2MODE_DOWN;
+  else
+    mode= T2MODE_RELOAD;
+  if ((features & t2_clock_out) &&
+      bit_t2oe)
+    mode= T2MODE_CLKOUT;
+  if (exf2it)
+    {
+      // EXF2 does not request interrupt when counting up/down
+      if (mode == T2MODE_DOWN)
+	exf2it->deactivate();
+      else
+	exf2it->activate();
+    }
 }
 
 int
@@ -164,7 +178,9 @@ cl_timer2::tick(int cycles)
       break;
     default: break;
     }
-  
+  // edges which are not used (not enabled) are lost
+  T_edge= t2ex_edge= 0;
+
   return(resGO);
 }
 
@@ -224,10 +240,13 @@ cl_timer2::do_t2_capture(int cycles)
   if (C_T)
     (cycles= T_edge), T_edge= 0;
 
-  if (!cell_tl->set(cell_tl->get() + 1))
+  while (cycles--)
     {
-      if (!cell_th->set(cell_th->get() + 1))
-	cell_tcon->set(cell_tcon->get() | bmTF2);
+      if (!cell_tl->set(cell_tl->get() + 1))
+	{
+	  if (!cell_th->set(cell_th->get() + 1))
+	    cell_tcon->set(cell_tcon->get() | bmTF2);
+	}
     }
 }
 
@@ -253,13 +272,16 @@ cl_timer2::do_t2_reload(int cycles)
   if (C_T)
     (cycles= T_edge), T_edge= 0;
 
-  if (!cell_tl->set(cell_tl->get() + 1))
+  while (cycles--)
     {
-      if (!cell_th->set(cell_th->get() + 1))
+      if (!cell_tl->set(cell_tl->get() + 1))
 	{
-	  cell_tcon->set(cell_tcon->get() | mask_TF);
-	  cell_th->set(cell_rcap2h->get());
-	  cell_tl->set(cell_rcap2l->get());
+	  if (!cell_th->set(cell_th->get() + 1))
+	    {
+	      cell_tcon->set(cell_tcon->get() | mask_TF);
+	      cell_th->set(cell_rcap2h->get());
+	      cell_tl->set(cell_rcap2l->get());
+	    }
 	}
     }
 }
@@ -310,13 +332,9 @@ cl_timer2::do_t2_down(int cycles)
 	    }
 	}
     }
-  if (toggle &&
-      sfr)
-    {
-      class cl_memory_cell *p1= sfr->get_cell(P1);
-      if (p1)
-	p1->set(p1->get() ^ bmEXF2);
-    }
+  if (toggle)
+    // EXF2 is the 17th bit
+    cell_tcon->set(cell_tcon->get() ^ bmEXF2);
 }
 
 void
diff --git a/src/sims/s51.src/timer2cl.h b/src/sims/s51.src/timer2cl.h
index 2cc9cc1..12afdbd 100644
--- a/src/sims/s51.src/timer2cl.h
+++ b/src/sims/s51.src/timer2cl.h
@@ -75,6 +75,8 @@ public:
 
   //virtual void mem_cell_changed(class cl_mem *mem, t_addr addr);
 
+  virtual void pick_mode(void);
+
   virtual int  tick(int cycles);
   virtual int  do_t2_baud(int cycles);
   virtual void do_t2_capture(int cycles);
diff --git a/src/sims/s51.src/uc52.cc b/src/sims/s51.src/uc52.cc
index e27fd86..91bbc47 100644
--- a/src/sims/s51.src/uc52.cc
+++ b/src/sims/s51.src/uc52.cc
@@ -128,6 +128,7 @@ cl_uc52::clear_sfr(void)
 {
   cl_51core::clear_sfr();
   sfr->write(T2CON, 0);
+  sfr->write(T2MOD, 0);
   sfr->write(TH2, 0);
   sfr->write(TL2, 0);
   sfr->write(RCAP2L, 0);
-- 
2.43.0


From af6b9c019be4636164db35625ac6324cae420f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:53 +0000
Subject: [PATCH 049/106] fix: 8051 serial receiver and transmitter have their
 own baud clock, mode 2 rate, mode 0 clock

---
 src/sims/s51.src/serial.cc  | 90 +++++++++++++++++++------------------
 src/sims/s51.src/serialcl.h |  6 ++-
 2 files changed, 50 insertions(+), 46 deletions(-)

diff --git a/src/sims/s51.src/serial.cc b/src/sims/s51.src/serial.cc
index 7c4e3c7..b9fb622 100644
--- a/src/sims/s51.src/serial.cc
+++ b/src/sims/s51.src/serial.cc
@@ -78,13 +78,9 @@ cl_serial::init(void)
 
   class cl_hw *t2= uc->get_hw(HW_TIMER, 2, 0);
   there_is_t2= t2!=NULL;
+  t2_rx= t2_tx= false;
   if (there_is_t2)
-    {
-      t_mem d= sfr->get(T2CON);
-      t2_baud= d & (bmRCLK | bmTCLK);
-    }
-  else
-    t2_baud= false;
+    t2_changed(sfr->get(T2CON));
   /*
   chars pn(id_string);
   pn.append("%d_", id);
@@ -101,8 +97,7 @@ cl_serial::new_hw_added(class cl_hw *new_hw)
       new_hw->id == 2)
     {
       there_is_t2= true;
-      t_mem d= sfr->get(T2CON);
-      t2_baud= d & (bmRCLK | bmTCLK);
+      t2_changed(sfr->get(T2CON));
     }
 }
 
@@ -172,39 +167,21 @@ cl_serial::write(class cl_memory_cell *cell, t_mem *val)
 	{
 	case 0:
 	  _bits= 8;
-	  _divby= 12;
 	  break;
 	case 1:
 	  _bits= 10;
-	  _divby= _bmSMOD?16:32;
 	  break;
 	case 2:
 	  _bits= 11;
-	  _divby= _bmSMOD?16:32;
 	  break;
 	case 3:
 	  _bits= 11;
-	  _divby= _bmSMOD?16:32;
 	  break;
 	}
     }
   else if (cell == pcon)
     {
       _bmSMOD= *val & bmSMOD;
-      /*switch (_mode)
-	{
-	case 1:
-	  _divby= _bmSMOD?16:32;
-	  break;
-	case 2:
-	  _divby= _bmSMOD?16:32;
-	  break;
-	case 3:
-	  _divby= _bmSMOD?16:32;
-	  break;
-	  }*/
-      if (_mode)
-	_divby= _bmSMOD?16:32;
     }
   else
     conf(cell, val);
@@ -238,47 +215,70 @@ cl_serial::conf_op(cl_memory_cell *cell, t_addr addr, t_mem *val)
   return cell->get();
 }
 
+/* Baud clock of receiver and transmitter can be selected separately */
+
+void
+cl_serial::t2_changed(t_mem t2con)
+{
+  bool rx= (t2con & bmRCLK) != 0, tx= (t2con & bmTCLK) != 0;
+  if (rx != t2_rx)
+    s_rec_t1= 0;
+  if (tx != t2_tx)
+    s_tr_t1= 0;
+  t2_rx= rx;
+  t2_tx= tx;
+}
+
+/* Number of source events of one bit: clocks in modes 0,2 and timer
+   overflows in modes 1,3 */
+
+int
+cl_serial::divby(bool t2)
+{
+  switch (_mode)
+    {
+    case 0: return 12;
+    case 2: return _bmSMOD?32:64;
+    }
+  return t2?16:(_bmSMOD?16:32);
+}
+
 int
 cl_serial::serial_bit_cnt(void)
 {
-  //int divby= 12;
+  int tr_div= divby(t2_tx), rec_div= divby(t2_rx);
   int *tr_src= 0, *rec_src= 0;
 
   switch (_mode)
     {
     case 0:
-      //divby  = 12;
       tr_src = &s_tr_tick;
       rec_src= &s_rec_tick;
       break;
     case 1:
     case 3:
-      //divby  = (/*pcon->get()&bmSMOD*/_bmSMOD)?16:32;
       tr_src = &s_tr_t1;
       rec_src= &s_rec_t1;
       break;
     case 2:
-      //divby  = (/*pcon->get()&bmSMOD*/_bmSMOD)?16:32;
       tr_src = &s_tr_tick;
       rec_src= &s_rec_tick;
       break;
     }
-  if (t2_baud)
-    _divby= 16;
   if (s_sending)
     {
-      while (*tr_src >= _divby)
+      while (*tr_src >= tr_div)
 	{
-	  (*tr_src)-= _divby;
+	  (*tr_src)-= tr_div;
 	  if (s_tr_bit < _bits)
 	    s_tr_bit++;
 	}
     }
   if (s_receiving)
     {
-      while (*rec_src >= _divby)
+      while (*rec_src >= rec_div)
 	{
-	  (*rec_src)-= _divby;
+	  (*rec_src)-= rec_div;
 	  s_rec_bit++;
 	}
     }
@@ -368,8 +368,10 @@ cl_serial::happen(class cl_hw *where, enum hw_event he, void *params)
     {
       if (where->id == 1)
 	{
-	  s_rec_t1++;
-	  s_tr_t1++;
+	  if (!t2_rx)
+	    s_rec_t1++;
+	  if (!t2_tx)
+	    s_tr_t1++;
 	}
       if (where->id == 2 /*&& there_is_t2*/)
 	{
@@ -377,15 +379,15 @@ cl_serial::happen(class cl_hw *where, enum hw_event he, void *params)
 	    {
 	    case EV_T2_MODE_CHANGED:
 	      {
-		if (!t2_baud)
-		  s_rec_t1= s_tr_t1= 0;
 		t_mem *d= (t_mem *)params;
-		t2_baud= *d & (bmRCLK | bmTCLK);
+		t2_changed(*d);
 		break;
 	      }
 	    case EV_OVERFLOW:
-	      s_rec_t1++;
-	      s_tr_t1++;
+	      if (t2_rx)
+		s_rec_t1++;
+	      if (t2_tx)
+		s_tr_t1++;
 	      break;
 	    default: break;
 	    }
@@ -415,7 +417,7 @@ cl_serial::print_info(class cl_console_base *con)
   int mode= (sc&(bmSM0|bmSM1))>>6;
   con->dd_printf("%s", modes[mode]);
   if (mode == 1 || mode == 2)
-    con->dd_printf(" (timer%d)", (t2_baud)?2:1);
+    con->dd_printf(" (timer%d)", (t2_rx || t2_tx)?2:1);
   con->dd_printf(" MultiProc=%s",
 		 (mode&2)?((sc&bmSM2)?"ON":"OFF"):"none");
   con->dd_printf(" irq=%s", (sfr->get(IE)&bmES)?"en":"dis");
diff --git a/src/sims/s51.src/serialcl.h b/src/sims/s51.src/serialcl.h
index 9eea9bc..4efd956 100644
--- a/src/sims/s51.src/serialcl.h
+++ b/src/sims/s51.src/serialcl.h
@@ -45,7 +45,8 @@ class cl_serial: public cl_serial_hw
 {
 protected:
   class cl_address_space *sfr, *bas;
-  bool there_is_t2, t2_baud;
+  bool there_is_t2;
+  bool t2_rx, t2_tx; // Timer2 clocks receiver/transmitter
   class cl_memory_cell *sbuf, *pcon, *scon, *scon_bits[8];
   int   s_rec_t1;	// T1 overflows for receiving
   int   s_tr_t1;	// T1 overflows for sending
@@ -55,7 +56,6 @@ protected:
   uchar _bmREN;
   uchar _bmSMOD;
   uchar _bits;
-  uchar _divby;
 public:
   cl_serial(class cl_uc *auc);
   virtual ~cl_serial(void);
@@ -68,6 +68,8 @@ public:
   virtual void write(class cl_memory_cell *cell, t_mem *val);
   virtual t_mem conf_op(cl_memory_cell *cell, t_addr addr, t_mem *val);
 
+  virtual void t2_changed(t_mem t2con);
+  virtual int  divby(bool t2);
   virtual int  serial_bit_cnt(void);
   virtual void received(int c);
 
-- 
2.43.0


From a19c20aef07e25538dcc8af6ef94a36378f9f0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:53 +0000
Subject: [PATCH 050/106] fix: writing PSW of 8051 does not change parity

---
 src/sims/s51.src/uc51.cc  | 12 +++++++++++-
 src/sims/s51.src/uc51cl.h |  2 +-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/sims/s51.src/uc51.cc b/src/sims/s51.src/uc51.cc
index 2932352..399bc41 100644
--- a/src/sims/s51.src/uc51.cc
+++ b/src/sims/s51.src/uc51.cc
@@ -1990,7 +1990,8 @@ cl_uc51_cpu::init(void)
     {
       fprintf(stderr, "No SFR to register %s[%d] into\n", id_string, id);
     }
-  cell_psw= sfr->get_cell(PSW);//use_cell(sfr, PSW);
+  cell_psw= register_cell(sfr, PSW);
+  bit_p= register_cell(bas, PSW+0);
   cell_acc= register_cell(sfr, ACC);
   cell_sp= register_cell(sfr, SP);
   for (i= 0; i < 8; i++)
@@ -2055,6 +2056,15 @@ cl_uc51_cpu::write(class cl_memory_cell *cell, t_mem *val)
       if (*val > uc->sp_most)
 	uc->sp_most= *val;
     }
+  else if (cell == cell_psw)
+    {
+      // parity follows ACC, it can not be changed by writing PSW
+      *val= (*val & ~bmP) | ptab51[cell_acc->get() & 0xff];
+    }
+  else if (cell == bit_p)
+    {
+      *val= ptab51[cell_acc->get() & 0xff]?1:0;
+    }
   else // ACC and its bits
     {
       uchar uc, n= *val;
diff --git a/src/sims/s51.src/uc51cl.h b/src/sims/s51.src/uc51cl.h
index de60f77..069224e 100644
--- a/src/sims/s51.src/uc51cl.h
+++ b/src/sims/s51.src/uc51cl.h
@@ -296,7 +296,7 @@ enum uc51cpu_cfg {
 class cl_uc51_cpu: public cl_hw
 {
 protected:
-  class cl_memory_cell *cell_acc, *cell_sp, *cell_psw;
+  class cl_memory_cell *cell_acc, *cell_sp, *cell_psw, *bit_p;
   class cl_memory_cell *acc_bits[8];
 public:
   chars movxri_expr;
-- 
2.43.0


From 6cb9fd1de672f00d933e77e0ed3df31a0f12247a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:53 +0000
Subject: [PATCH 051/106] fix: idle 8051 clocks its peripherals, interrupt
 acceptance takes time for peripherals too

---
 src/sims/s51.src/uc51.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/sims/s51.src/uc51.cc b/src/sims/s51.src/uc51.cc
index 399bc41..0db3317 100644
--- a/src/sims/s51.src/uc51.cc
+++ b/src/sims/s51.src/uc51.cc
@@ -1712,7 +1712,10 @@ cl_51core::do_inst(void)
   else
     {
       // tick hw in idle state
+      inst_ticks= 0;
       tick(1);
+      if (state == stIDLE)
+	tick_hw(inst_ticks);
     }
 
   if ((result == resGO) && (PC == PCsave) && stop_selfjump)
@@ -1724,8 +1727,12 @@ cl_51core::do_inst(void)
   if (result == resGO)
     {
       int res;
+      inst_ticks= 0;
       if ((res= do_interrupt()) != resGO)
 	result= res;
+      // time of interrupt acceptance
+      if (inst_ticks)
+	tick_hw(inst_ticks);
       else
 	result= idle_pd();
     }
@@ -1759,14 +1766,21 @@ cl_51core::do_emu(void)
   else
     {
       // tick hw in idle state
+      inst_ticks= 0;
       tick(1);
+      if (state == stIDLE)
+	tick_hw(inst_ticks);
     }
 
   if (result == resGO)
     {
       int res;
+      inst_ticks= 0;
       if ((res= do_interrupt()) != resGO)
 	result= res;
+      // time of interrupt acceptance
+      if (inst_ticks)
+	tick_hw(inst_ticks);
       else
 	result= idle_pd();
     }
-- 
2.43.0


From c0c35d7bcf4edcbae9459df59ac584d5268434cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:53 +0000
Subject: [PATCH 052/106] fix: 8051 level activated interrupt request follows
 the pin

---
 src/sims/s51.src/interrupt.cc | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/sims/s51.src/interrupt.cc b/src/sims/s51.src/interrupt.cc
index 0cc82c6..6cd294c 100644
--- a/src/sims/s51.src/interrupt.cc
+++ b/src/sims/s51.src/interrupt.cc
@@ -109,10 +109,21 @@ cl_interrupt::mem_cell_changed(class cl_m *mem, t_addr addr)
 int
 cl_interrupt::tick(int cycles)
 {
-  if (!bit_IT0 && !bit_INT0)
-    cell_tcon->set(cell_tcon->get() | bmIE0);
-  if (!bit_IT1 && !bit_INT1)
-    cell_tcon->set(cell_tcon->get() | bmIE1);
+  // level activated requests follow the pins
+  if (!bit_IT0)
+    {
+      if (!bit_INT0)
+	cell_tcon->set(cell_tcon->get() | bmIE0);
+      else
+	cell_tcon->set(cell_tcon->get() & ~bmIE0);
+    }
+  if (!bit_IT1)
+    {
+      if (!bit_INT1)
+	cell_tcon->set(cell_tcon->get() | bmIE1);
+      else
+	cell_tcon->set(cell_tcon->get() & ~bmIE1);
+    }
   return(resGO);
 }
 
-- 
2.43.0


From cc003a2da5791658ca2717d1a9c3356313b65e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:53 +0000
Subject: [PATCH 053/106] fix: 8051 accepts the highest priority request first,
 also from idle; writing IP or bits of IE/IP delays acceptance

---
 src/sims/s51.src/interrupt.cc |  9 ++++++++-
 src/sims/s51.src/uc51.cc      | 27 +++++++++++++++------------
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/sims/s51.src/interrupt.cc b/src/sims/s51.src/interrupt.cc
index 6cd294c..0b66f33 100644
--- a/src/sims/s51.src/interrupt.cc
+++ b/src/sims/s51.src/interrupt.cc
@@ -54,12 +54,19 @@ cl_interrupt::init(void)
   if (sfr)
     {
       register_cell(sfr, IE);
+      register_cell(sfr, IP);
       cell_tcon= register_cell(sfr, TCON);
       bit_INT0= sfr->read(P3) & bm_INT0;
       bit_INT1= sfr->read(P3) & bm_INT1;
       cl_address_space *bas= uc->address_space("bits");
       cell_it0= register_cell(bas, 0x88);
       cell_it1= register_cell(bas, 0x8a);
+      int i;
+      for (i= 0; i < 8; i++)
+	{
+	  register_cell(bas, IE+i);
+	  register_cell(bas, IP+i);
+	}
     }
   return(0);
 }
@@ -97,7 +104,7 @@ cl_interrupt::write(class cl_memory_cell *cell, t_mem *val)
       bit_IT1= *val & bmIT1;
     }
   else
-    // IE register
+    // IE, IP registers or their bits
     was_reti= true;
 }
 
diff --git a/src/sims/s51.src/uc51.cc b/src/sims/s51.src/uc51.cc
index 0db3317..0258a51 100644
--- a/src/sims/s51.src/uc51.cc
+++ b/src/sims/s51.src/uc51.cc
@@ -1828,6 +1828,10 @@ cl_51core::do_interrupt(void)
   if (!((ie= sfr->get(IE)) & bmEA))
     return(resGO);
   class it_level *il= (class it_level *)(it_levels->top()), *IL= 0;
+  class cl_it_src *req= 0;
+  int req_pr= -1;
+  // select the highest priority request, polling order decides between
+  // requests of the same level
   for (i= 0; i < it_sources->count; i++)
     {
       class cl_it_src *is= (class cl_it_src *)(it_sources->at(i));
@@ -1839,22 +1843,21 @@ cl_51core::do_interrupt(void)
 	  if (il->level >= 0 &&
 	      pr <= il->level)
 	    continue;
-	  if (state == stIDLE)
+	  if (pr > req_pr)
 	    {
-	      state= stGO;
-	      sfr->set(PCON, sfr->get(PCON) & ~bmIDL);
-	      interrupt->was_reti= true;
-	      return(resGO);
+	      req= is;
+	      req_pr= pr;
 	    }
-	  is->clear();
-	  sim->app->get_commander()->
-	    debug("%g sec (%d clks): Accepting interrupt `%s' PC= 0x%06x\n",
-			  ticks->get_rtime(), ticks->get_ticks(), object_name(is), PC);
-	  IL= new it_level(pr, is->addr, PC, is);
-	  return(accept_it(IL));
 	}
     }
-  return(resGO);
+  if (!req)
+    return(resGO);
+  req->clear();
+  sim->app->get_commander()->
+    debug("%g sec (%d clks): Accepting interrupt `%s' PC= 0x%06x\n",
+	  ticks->get_rtime(), ticks->get_ticks(), object_name(req), PC);
+  IL= new it_level(req_pr, req->addr, PC, req);
+  return(accept_it(IL));
 }
 
 int
-- 
2.43.0


From 81c36259667ff98c9c947a02a8d6bab77ac321d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:06 +0000
Subject: [PATCH 054/106] fix: reading of file which is at its end or not open
 does not hang; last line without newline is read completely

---
 src/core/utils.src/fio.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/core/utils.src/fio.cc b/src/core/utils.src/fio.cc
index 9d9398e..d693302 100644
--- a/src/core/utils.src/fio.cc
+++ b/src/core/utils.src/fio.cc
@@ -930,7 +930,10 @@ cl_f::get_c(void)
 {
   int c;
   while (!check_dev())
-    ;
+    {
+      if (eof())
+	return 0;
+    }
   int i= read_dev(&c, 1);
   if (i > 0)
     return c;
@@ -954,15 +957,13 @@ cl_f::get_s(void)
 	return s;
       c= get_c();
     }
-  if (eof())
-    return s;
-  s+= c;
-  c= get_c();
-  while (!eof() &&
+  while (c &&
 	 (c != '\n') &&
 	 (c != '\r'))
     {
       s+= c;
+      if (eof())
+	return s;
       c= get_c();
     }
   return s;
-- 
2.43.0


From 8d6438c80ab61b8a558c48c2975b286e0e18ea80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:06 +0000
Subject: [PATCH 055/106] fix: OMF loader places data at the address of the
 record and survives damaged records

---
 src/core/sim.src/uc.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index a14ac0c..1bb5fbc 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -356,14 +356,18 @@ cl_omf_rec::read(cl_f *f)
   h= c;
   if (f->eof())
     return false;
+  if ((h == 0) && (l == 0))
+    return false;
   len= h*256+l-1;
   rec= (u8_t*)malloc(len);
   for (i= 0; i < len; i++)
     {
-      rec[i]= g(f);
       if (f->eof())
 	return false;
+      rec[i]= g(f);
     }
+  if (f->eof())
+    return false;
   chk= g(f);
   
   return true;
@@ -1733,7 +1737,8 @@ cl_uc::read_omf_file(class cl_inspec *is, cl_f *f, bool check)
 	  int i= 3;
 	  while (i < rec.len)
 	    {
-	      set_rom(is, addr+i, rec.rec[i], check);
+	      // content bytes follow the segment ID and the offset
+	      set_rom(is, addr+i-3, rec.rec[i], check);
 	      written++;
 	      i++;
 	    }
-- 
2.43.0


From 93fbf281b280a362cb8d452b6e9736f616ec57ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:06 +0000
Subject: [PATCH 056/106] fix: images are loaded into and checked against the
 named memory

---
 src/core/sim.src/uc.cc | 62 ++++++++++++++++++++++++++----------------
 1 file changed, 38 insertions(+), 24 deletions(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 1bb5fbc..23faf1e 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -536,6 +536,7 @@ cl_inspec::cl_inspec(chars aspec, class cl_uc *auc)
   offset_name= "0";
   offset= 0;
   uc= auc;
+  mem= uc->rom;
   use_min= 0;
   use_max= 0xffffffff;
 }
@@ -1499,33 +1500,44 @@ cl_uc::set_rom(class cl_inspec *is, t_addr addr, t_mem val, bool check)
       return eq;
     }
   // address space
+  class cl_address_space *as= (class cl_address_space *)mem;
   t_addr la= mem->lowest_valid_address();
   t_addr ha= mem->highest_valid_address();
   if ((addr >= la) && (addr <= ha))
     {
       if (check)
 	{
-	  v= rom->read(addr);
+	  v= mem->read(addr);
 	  if (!(eq= val == v))
 	    application->dd_printf("Diff at %08x, FILE=%08x MEM=%08x\n",
 				   AU32(addr), MU32(val), MU32(v));
 	}
       else
-	rom->download(addr, val);
+	as->download(addr, val);
       return eq;
     }
   t_addr bank, caddr;
   bank= addr / size;
   caddr= addr % size;
-  class cl_banker *d= (class cl_banker *)(rom->get_decoder_of(caddr));
+  class cl_banker *d= (class cl_banker *)(as->get_decoder_of(caddr));
   if (d)
     {
       if (!d->is_banker())
 	{
 	  return true;
 	}
+      if (bank >= (t_addr)(d->get_nuof_banks()))
+	return true;
       d->switch_to(bank, NULL);
-      rom->download(caddr, val);
+      if (check)
+	{
+	  v= mem->read(caddr);
+	  if (!(eq= val == v))
+	    application->dd_printf("Diff at %08x, FILE=%08x MEM=%08x\n",
+				   AU32(addr), MU32(val), MU32(v));
+	}
+      else
+	as->download(caddr, val);
       d->activate(NULL);
     }
   else
@@ -1652,28 +1664,31 @@ cl_uc::read_hex_file(class cl_inspec *is, cl_f *f, bool check)
 			      addr++;
 			      written++;
 			    }
-			  else if (mem->width <= 16)
+			  else
 			    {
-			      switch (get_low)
+			      // words are little endian, records use
+			      // byte addresses
+			      uint wa= (base+addr) / wbytes;
+			      uint wi= (base+addr) % wbytes;
+			      if (get_low && (wa != waddr))
 				{
-				case 0: lows[0]= rec[i]; get_low++; break;
-				case 1: lows[1]= rec[i];
-				  set_rom(is, base+addr, (lows[1]*256)+lows[0], check);
-				  addr++;
+				  set_rom(is, waddr,
+					  (lows[3]<<24)+
+					  (lows[2]<<16)+
+					  (lows[1]<<8)+
+					  (lows[0]),
+					  check);
 				  written++;
 				  get_low= 0;
-				  break;
+				  lows[3]= lows[2]= lows[1]= lows[0]= 0;
 				}
-			    }
-			  else if (mem->width <= 32)
-			    {
-			      switch (get_low)
+			      waddr= wa;
+			      lows[wi]= rec[i];
+			      get_low++;
+			      addr++;
+			      if (wi == wbytes-1)
 				{
-				case 0: lows[0]= rec[i]; get_low++; break;
-				case 1: lows[1]= rec[i]; get_low++; break;
-				case 2: lows[2]= rec[i]; get_low++; break;
-				case 3: lows[3]= rec[i];
-				  set_rom(is, base+addr,
+				  set_rom(is, waddr,
 					  (lows[3]<<24)+
 					  (lows[2]<<16)+
 					  (lows[1]<<8)+
@@ -1708,11 +1723,10 @@ cl_uc::read_hex_file(class cl_inspec *is, cl_f *f, bool check)
 	    fprintf(stderr, "Read error in record %ld.\n", recnum);
 	}
     }
-  if (mem->width > 8)
+  if (get_low)
     {
-      for (i= get_low; i<4; i++)
-	lows[i]= 0;
-      set_rom(is, addr,
+      // last word is incomplete
+      set_rom(is, waddr,
 	      (lows[3]<<24)+
 	      (lows[2]<<16)+
 	      (lows[1]<<8)+
-- 
2.43.0


From 73453a9c8da5b32583a9a33b411a2c152caba872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:06 +0000
Subject: [PATCH 057/106] fix: hex files of memories with cells wider than 8
 bit

---
 src/core/sim.src/uc.cc | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 23faf1e..ba2a2f1 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -1605,6 +1605,8 @@ cl_uc::read_hex_file(class cl_inspec *is, cl_f *f, bool check)
   bool ok;
   int get_low= 0;
   uchar lows[4]= { 0, 0, 0, 0 };
+  uint  waddr= 0; // address of the word being assembled
+  uint  wbytes;   // number of bytes in a word
   class cl_memory *mem= is->get_mem();
   if (!mem)
     {
@@ -1613,6 +1615,7 @@ cl_uc::read_hex_file(class cl_inspec *is, cl_f *f, bool check)
       return(-1);
     }
 
+  wbytes= (mem->width <= 16)?2:((mem->width <= 24)?3:4);
   //memset(inst_map, '\0', sizeof(inst_map));
   ok= true;
   while (ok &&
@@ -1647,15 +1650,6 @@ cl_uc::read_hex_file(class cl_inspec *is, cl_f *f, bool check)
 		{
 		  if (rtyp == 0)
 		    {
-		      if (mem->width > 8)
-			{
-			  if (mem->width <= 16)
-			    addr/= 2;
-			  else if (mem->width <= 24)
-			    addr/= 3;
-			  else if (mem->width <= 32)
-			    addr/= 4;
-			}
 		      for (i= 0; i < dnum; i++)
 			{
 			  if (mem->width <= 8)
@@ -1694,11 +1688,9 @@ cl_uc::read_hex_file(class cl_inspec *is, cl_f *f, bool check)
 					  (lows[1]<<8)+
 					  (lows[0]),
 					  check);
+				  written++;
 				  get_low= 0;
 				  lows[3]= lows[2]= lows[1]= lows[0]= 0;
-				  addr++;
-				  written++;
-				  break;
 				}
 			    }
 			}
@@ -1732,6 +1724,7 @@ cl_uc::read_hex_file(class cl_inspec *is, cl_f *f, bool check)
 	      (lows[1]<<8)+
 	      (lows[0]),
 	      check);
+      written++;
     }
   
   return(written);
-- 
2.43.0


From f4e0d224ac50a0ba43bf4384d8d06b28ee7455c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:06 +0000
Subject: [PATCH 058/106] fix: address and data length of S records of wide
 memories

---
 src/core/sim.src/uc.cc | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index ba2a2f1..f5af284 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -2091,8 +2091,8 @@ static int s19(class cl_inspec *is, class cl_uc *uc, t_addr a, const char *s, in
   if (is->get_mem()->width > 8)
     {
       if (is->get_mem()->width <= 16) a/= 2;
-      if (is->get_mem()->width <= 24) a/= 3;
-      if (is->get_mem()->width <= 32) a/= 4;
+      else if (is->get_mem()->width <= 24) a/= 3;
+      else if (is->get_mem()->width <= 32) a/= 4;
     }
   while (b < data_bytes)
     {
@@ -2106,27 +2106,27 @@ static int s19(class cl_inspec *is, class cl_uc *uc, t_addr a, const char *s, in
 	}
       else if (is->get_mem()->width <= 16)
 	{
-	  d0= h2(s, p); p+= 2; b++;
-	  d1= h2(s, p); p+= 2; b++;
+	  d0= (b<data_bytes)?h2(s, p):0; p+= 2; b++;
+	  d1= (b<data_bytes)?h2(s, p):0; p+= 2; b++;
 	  v= (d1<<8)+d0;
 	  uc->set_rom(is, a, v, check);
 	  a++;
 	}
       else if (is->get_mem()->width <= 24)
 	{
-	  d0= h2(s, p); p+= 2; b++;
-	  d1= h2(s, p); p+= 2; b++;
-	  d2= h2(s, p); p+= 2; b++;
+	  d0= (b<data_bytes)?h2(s, p):0; p+= 2; b++;
+	  d1= (b<data_bytes)?h2(s, p):0; p+= 2; b++;
+	  d2= (b<data_bytes)?h2(s, p):0; p+= 2; b++;
 	  v= (d2<<16)+(d1<<8)+d0;
 	  uc->set_rom(is, a, v, check);
 	  a++;
 	}
       else if (is->get_mem()->width <= 32)
 	{
-	  d0= h2(s, p); p+= 2; b++;
-	  d1= h2(s, p); p+= 2; b++;
-	  d2= h2(s, p); p+= 2; b++;
-	  d3= h2(s, p); p+= 2; b++;
+	  d0= (b<data_bytes)?h2(s, p):0; p+= 2; b++;
+	  d1= (b<data_bytes)?h2(s, p):0; p+= 2; b++;
+	  d2= (b<data_bytes)?h2(s, p):0; p+= 2; b++;
+	  d3= (b<data_bytes)?h2(s, p):0; p+= 2; b++;
 	  v= (d3<<24)+(d2<<16)+(d1<<8)+d0;
 	  uc->set_rom(is, a, v, check);
 	  a++;
-- 
2.43.0


From b419b1951742d04b7b0ed5343e90eaef2922bb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:06 +0000
Subject: [PATCH 059/106] fix: last line of asc and p2h files

---
 src/core/sim.src/uc.cc | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index f5af284..ae243f0 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -1763,12 +1763,15 @@ cl_uc::read_asc_file(class cl_inspec *is, cl_f *f, bool check)
   t_addr addr= 0;
   
   in= true;
-  while ((c= f->get_c()) &&
-	 (!f->eof()))
+  do
     {
+      // end of the file ends the last line too
+      c= f->eof()?0:f->get_c();
+      if (c <= 0)
+	c= 0;
       if (in)
 	{
-	  if ((c=='\n') || (c=='\r'))
+	  if ((c=='\n') || (c=='\r') || (c==0))
 	    {
 	      in= false;
 	      {
@@ -1779,7 +1782,7 @@ cl_uc::read_asc_file(class cl_inspec *is, cl_f *f, bool check)
 		line.start_parse();
 		word= line.token(" ");
 		s= word.c_str();
-		if (isxdigit(*s))
+		if (s && isxdigit((unsigned char)*s))
 		  {
 		    t_mem d= chars(s).htoi();
 		    set_rom(is, addr, d, check);
@@ -1793,7 +1796,7 @@ cl_uc::read_asc_file(class cl_inspec *is, cl_f *f, bool check)
 	}
       else // out
 	{
-	  if ((c=='\n') || (c=='\r'))
+	  if ((c=='\n') || (c=='\r') || (c==0))
 	    ;
 	  else
 	    {
@@ -1802,6 +1805,7 @@ cl_uc::read_asc_file(class cl_inspec *is, cl_f *f, bool check)
 	    }
 	}
     }
+  while (c);
   return addr;
 }
 
@@ -1811,10 +1815,13 @@ cl_uc::read_p2h_file(class cl_inspec *is, cl_f *f, bool check)
   chars line= chars();
   int c;
   long nr= 0;
-  while ((c= f->get_c()) &&
-	 (!f->eof()))
+  do
     {
-      if ((c=='\n') || (c=='\r'))
+      // end of the file ends the last line too
+      c= f->eof()?0:f->get_c();
+      if (c <= 0)
+	c= 0;
+      if ((c=='\n') || (c=='\r') || (c==0))
 	{
 	  line.trim();
 	  line.start_parse();
@@ -1836,6 +1843,7 @@ cl_uc::read_p2h_file(class cl_inspec *is, cl_f *f, bool check)
       else
 	line.append(c);
     }
+  while (c);
   return nr;
 }
 
-- 
2.43.0


From c93d3552fadcc4d87c86e1cc49fed9e1c581acb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:06 +0000
Subject: [PATCH 060/106] fix: missing instruction table of a CPU

---
 src/core/sim.src/uc.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index ae243f0..ca0aeb5 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -2649,7 +2649,7 @@ cl_uc::inst_length(t_addr addr)
   int i;
   t_mem code;
 
-  if (!rom)
+  if (!rom || !tabl)
     return(0);
 
   code = rom->get(addr);
@@ -2664,7 +2664,7 @@ cl_uc::inst_branch(t_addr addr)
   int i;
   t_mem code;
 
-  if (!rom)
+  if (!rom || !tabl)
     return(0);
 
   code = rom->get(addr);
@@ -2680,7 +2680,7 @@ cl_uc::is_call(t_addr addr)
   int i;
   t_mem code;
 
-  if (!rom)
+  if (!rom || !tabl)
     return(0);
 
   code = rom->get(addr);
-- 
2.43.0


From a76e17e2b54f485d8bf7ac7c47b27020d7766a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:06 +0000
Subject: [PATCH 061/106] fix: deleting a timer frees that timer, huge timer
 ids are refused

---
 src/core/cmd.src/cmd_timer.cc | 6 ++++++
 src/core/sim.src/uc.cc        | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/cmd.src/cmd_timer.cc b/src/core/cmd.src/cmd_timer.cc
index 185f9da..5d7c20e 100644
--- a/src/core/cmd.src/cmd_timer.cc
+++ b/src/core/cmd.src/cmd_timer.cc
@@ -78,6 +78,12 @@ COMMAND_DO_WORK_UC(cl_timer_cmd)
 			 "Timer id must be greater than zero or a string\n");
 	  return(true);
 	}
+      if (id_nr > 10000)
+	{
+	  // id is an index of the list of timers
+	  con->dd_printf("Error: Timer id is too big\n");
+	  return(true);
+	}
       ticker= uc->get_counter(id_nr);
     }
   else
diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index ca0aeb5..649a4cb 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -3181,7 +3181,7 @@ cl_uc::del_counter(int nr)
 
   if (nr >= counters->count)
     return;
-  if ((t= (class cl_ticker *)(counters->at(0))) != 0)
+  if ((t= (class cl_ticker *)(counters->at(nr))) != 0)
     delete t;
   counters->put_at(nr, 0);
 }
-- 
2.43.0


From ece0ea3679378c7c8f6b547ed733b01b6d96f3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:06 +0000
Subject: [PATCH 062/106] fix: parameters of memory create commands are checked

---
 src/core/cmd.src/cmd_mem.cc | 32 ++++++++++++++++++++++++++++++--
 src/core/sim.src/mem.cc     |  8 ++++++--
 src/core/sim.src/memcl.h    |  1 +
 3 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/src/core/cmd.src/cmd_mem.cc b/src/core/cmd.src/cmd_mem.cc
index 619fe7d..e2c8d2f 100644
--- a/src/core/cmd.src/cmd_mem.cc
+++ b/src/core/cmd.src/cmd_mem.cc
@@ -221,7 +221,7 @@ COMMAND_DO_WORK_UC(cl_memory_create_addressdecoder_cmd)
     chip_begin= params[4]->value.number;
   }
   else
-    syntax_error(con);
+    return syntax_error(con), false;
 
   if (!as->is_address_space())
     con->dd_printf("%s is not an address space\n", as->get_name("unknown"));
@@ -234,7 +234,7 @@ COMMAND_DO_WORK_UC(cl_memory_create_addressdecoder_cmd)
   else if (as_begin < as->start_address ||
            as_end > as->highest_valid_address())
     con->dd_printf("Specified area is out of address space\n");
-  else if (as_end-as_begin > chip->get_size()-chip_begin)
+  else if (as_end-as_begin >= chip->get_size()-chip_begin)
     con->dd_printf("Specified area is out of chip size\n");
   else
     {
@@ -252,6 +252,18 @@ CMDHELP(cl_memory_create_addressdecoder_cmd,
 	"Create a new address decoder",
 	"")
 
+/* Bank selector: some neighbouring bits of the switcher */
+
+static bool
+good_bank_mask(t_mem mask)
+{
+  if (mask == 0)
+    return false;
+  while ((mask & 1) == 0)
+    mask>>= 1;
+  return (mask <= 0xffff) && ((mask & (mask+1)) == 0);
+}
+
 /*
  * Command: memory create banker
  *----------------------------------------------------------------------------
@@ -293,6 +305,10 @@ COMMAND_DO_WORK_UC(cl_memory_create_banker_cmd)
   else if (ase < banked_as->start_address ||
            ase > banked_as->highest_valid_address())
     con->dd_printf("Specified banked end address is out of address space\n");
+  else if (asb > ase)
+    con->dd_printf("Wrong address area specification\n");
+  else if (!good_bank_mask(mask))
+    con->dd_printf("Wrong mask\n");
   else
     {
       class cl_banker *d=
@@ -363,9 +379,17 @@ COMMAND_DO_WORK_UC(cl_memory_create_bander_cmd)
   else if (ase < as->start_address ||
            ase > as->highest_valid_address())
     con->dd_printf("Specified end address is out of address space\n");
+  else if (asb > ase)
+    con->dd_printf("Wrong address area specification\n");
+  else if ((bpc < 1) || (bpc > 32))
+    con->dd_printf("Wrong number of bits\n");
+  else if (dist < 1)
+    con->dd_printf("Wrong distance\n");
   else if (cb < chip->start_address ||
            cb > chip->highest_valid_address())
     con->dd_printf("Specified chip address is out of size\n");
+  else if ((ase-asb)/bpc > (chip->highest_valid_address()-cb)/dist)
+    con->dd_printf("Specified area is out of chip size\n");
   else
     {
       class cl_bander *b=
@@ -433,6 +457,10 @@ COMMAND_DO_WORK_UC(cl_memory_create_bank_cmd)
 	con->dd_printf("Specified address is not decoded, create a banker first\n");
       else if (!d->is_banker())
 	con->dd_printf("Specified area is not decoded by banker\n");
+      else if ((bank < 0) || (bank >= d->get_nuof_banks()))
+	con->dd_printf("Wrong bank number\n");
+      else if (d->as_end-d->as_begin >= chip->get_size()-chip_begin)
+	con->dd_printf("Specified area is out of chip size\n");
       else
 	{
 	  d->add_bank(bank, chip, chip_begin);
diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 229e70b..cc6f497 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -2375,7 +2375,7 @@ cl_address_decoder::activate(class cl_console_base *con)
       D("Specified area is out of address space\n");
       return(false);
     }
-  if (as_end-as_begin > memchip->get_size()-chip_begin)
+  if (as_end-as_begin >= memchip->get_size()-chip_begin)
     {
       D("Specified area is out of chip size\n");
       return(false);
@@ -2715,7 +2715,8 @@ cl_banker::add_bank(int bank_nr, class cl_memory *chip, t_addr chip_start)
   if (!chip->is_chip())
     return;
 
-  if (bank_nr >= nuof_banks)
+  if ((bank_nr < 0) ||
+      (bank_nr >= nuof_banks))
     return;
   
   class cl_address_decoder *ad= new cl_address_decoder(address_space,
@@ -2727,6 +2728,9 @@ cl_banker::add_bank(int bank_nr, class cl_memory *chip, t_addr chip_start)
     {
       delete banks[bank_nr];
       banks[bank_nr]= 0;
+      if (bank == bank_nr)
+	// cells must be decoded to the new chip
+	bank= -1;
     }
   banks[bank_nr]= ad;
   /*
diff --git a/src/core/sim.src/memcl.h b/src/core/sim.src/memcl.h
index f08601d..a875a40 100644
--- a/src/core/sim.src/memcl.h
+++ b/src/core/sim.src/memcl.h
@@ -734,6 +734,7 @@ class cl_banker: public cl_address_decoder
   virtual ~cl_banker();
   virtual int init();
   virtual bool is_banker() { return true; }
+  virtual int get_nuof_banks() { return nuof_banks; }
 
   virtual void add_bank(int bank_nr, class cl_memory *chip, t_addr chip_start);
 
-- 
2.43.0


From 664614a998670f00fc64aa8a756299a16d6291b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:07 +0000
Subject: [PATCH 063/106] fix: dump with unusual line length, fill behind the
 end of memory

---
 src/core/cmd.src/cmd_uc.cc | 3 +++
 src/core/sim.src/mem.cc    | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/src/core/cmd.src/cmd_uc.cc b/src/core/cmd.src/cmd_uc.cc
index 6a57282..c24cb0f 100644
--- a/src/core/cmd.src/cmd_uc.cc
+++ b/src/core/cmd.src/cmd_uc.cc
@@ -642,6 +642,9 @@ COMMAND_DO_WORK_UC(cl_fill_cmd)
 	t_mem d;
 	d= what;
 	mem->write(i, d);
+	if (i > mem->highest_valid_address())
+	  // rest of the region is out of the memory too
+	  break;
       }
   }
   else
diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index cc6f497..34a43ef 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -224,6 +224,10 @@ cl_memory::dump(int smart,
       if (width > 16)
 	bpl= 4;
     }
+  if (bpl == 0)
+    bpl= 1;
+  if (bpl > 4096)
+    bpl= 4096;
 
   if (!ads->use_start)
     ads->start= dump_finished;
-- 
2.43.0


From 508090635f83bda89aeb9cd98aad512a058c1ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:07 +0000
Subject: [PATCH 064/106] fix: out of range read of a memory returns a value
 which fits into it

---
 src/core/sim.src/mem.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 34a43ef..815225d 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -1526,7 +1526,8 @@ cl_memory_cell::operator=(t_mem v)
 t_mem
 cl_dummy_cell::d()
 {
-  return data?(*((u32_t*)data)):0;
+  // data is shared with cells of other memories, which can be wider
+  return data?((*((u32_t*)data)) & mask):0;
 }
 
 void
-- 
2.43.0


From 5e13c46498945dc632e4000db4dea673d97d9008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:07 +0000
Subject: [PATCH 065/106] fix: expressions: division by zero, shifts,
 assignment of bits

---
 src/core/cmd.src/cmdpars.y | 102 ++++++++++++++++++++++++++++---------
 1 file changed, 78 insertions(+), 24 deletions(-)

diff --git a/src/core/cmd.src/cmdpars.y b/src/core/cmd.src/cmdpars.y
index c3aad3b..6facc1e 100644
--- a/src/core/cmd.src/cmdpars.y
+++ b/src/core/cmd.src/cmdpars.y
@@ -8,6 +8,11 @@
   //#include "stypes.h"
 
 static void yyerror (const char *msg);
+static long expr_div(long a, long b);
+static long expr_mod(long a, long b);
+static long expr_shl(long a, long n);
+static long expr_shr(long a, long n);
+static t_mem bit_mask(int high, int low);
 %}
 /*%expect 6*/
 
@@ -144,9 +149,8 @@ primary_expr
 : memory { $$= $1.memory->read($1.address); }
 | bit
 	{
-		t_mem mask = 0;
-		for (int i = $1.bitnr_low; i <= $1.bitnr_high; mask |= 1U << i++);
-		$$= ($1.memory->read($1.mem_address) & mask) >> $1.bitnr_low;
+		t_mem mask = bit_mask($1.bitnr_high, $1.bitnr_low);
+		$$= expr_shr($1.memory->read($1.mem_address) & mask, $1.bitnr_low);
 	}
 | PTOK_NUMBER { $$= $1; }
 | PTOK_CELL { $$= $1->read(); }
@@ -232,7 +236,7 @@ unary_expr
 	      $$= 0;
 	    }
 	}
-| PTOK_MINUS unary_expr { $$= -$2; }
+| PTOK_MINUS unary_expr { $$= -(unsigned long)$2; }
 | PTOK_PLUS unary_expr { $$= +$2; }
 | PTOK_TILDE unary_expr { $$= ~$2; }
 | PTOK_EXCLAMATION unary_expr { $$= ($2)?0:1; }
@@ -276,21 +280,21 @@ type_name
 
 multiplicative_expr
 : cast_expr { $$= $1; }
-| multiplicative_expr PTOK_ASTERIX cast_expr { $$= $1 * $3; }
-| multiplicative_expr PTOK_SLASH cast_expr { $$= $1 / $3; }
-| multiplicative_expr PTOK_PERCENT cast_expr { $$= $1 % $3; }
+| multiplicative_expr PTOK_ASTERIX cast_expr { $$= (unsigned long)$1 * (unsigned long)$3; }
+| multiplicative_expr PTOK_SLASH cast_expr { $$= expr_div($1, $3); }
+| multiplicative_expr PTOK_PERCENT cast_expr { $$= expr_mod($1, $3); }
 ;
 
 additive_expr
 : multiplicative_expr { $$= $1; }
-| additive_expr PTOK_PLUS multiplicative_expr { $$= $1 + $3; }
-| additive_expr PTOK_MINUS multiplicative_expr { $$= $1 - $3; }
+| additive_expr PTOK_PLUS multiplicative_expr { $$= (unsigned long)$1 + (unsigned long)$3; }
+| additive_expr PTOK_MINUS multiplicative_expr { $$= (unsigned long)$1 - (unsigned long)$3; }
 ;
 
 shift_expr
 : additive_expr { $$= $1; }
-| shift_expr PTOK_LEFT_OP additive_expr { $$= $1 << $3; }
-| shift_expr PTOK_RIGHT_OP additive_expr { $$= $1 >> $3; }
+| shift_expr PTOK_LEFT_OP additive_expr { $$= expr_shl($1, $3); }
+| shift_expr PTOK_RIGHT_OP additive_expr { $$= expr_shr($1, $3); }
 ;
 
 relational_expr
@@ -354,10 +358,10 @@ assignment_expr
 	      $1.memory->write($1.address, org *= $3);
 	      break;
 	    case PTOK_DIV_ASSIGN:
-	      $1.memory->write($1.address, org /= $3);
+	      $1.memory->write($1.address, expr_div(org, $3));
 	      break;
 	    case PTOK_MOD_ASSIGN:
-	      $1.memory->write($1.address, org %= $3);
+	      $1.memory->write($1.address, expr_mod(org, $3));
 	      break;
 	    case PTOK_ADD_ASSIGN:
 	      $1.memory->write($1.address, org += $3);
@@ -366,10 +370,10 @@ assignment_expr
 	      $1.memory->write($1.address, org -= $3);
 	      break;
 	    case PTOK_LEFT_ASSIGN:
-	      $1.memory->write($1.address, org <<= $3);
+	      $1.memory->write($1.address, expr_shl(org, $3));
 	      break;
 	    case PTOK_RIGHT_ASSIGN:
-	      $1.memory->write($1.address, org >>= $3);
+	      $1.memory->write($1.address, expr_shr(org, $3));
 	      break;
 	    case PTOK_AND_ASSIGN:
 	      $1.memory->write($1.address, org &= $3);
@@ -385,11 +389,10 @@ assignment_expr
 	}
 | bit PTOK_EQUAL assignment_expr
 	{
-		t_mem mask = 0;
-		for (int i = $1.bitnr_low; i <= $1.bitnr_high; mask |= 1U << i++);
-		mask= ($1.memory->read($1.mem_address) & (~mask)) | (($3 & mask) << $1.bitnr_low);
-		$1.memory->write($1.mem_address, mask);
-		$$= mask;
+		t_mem mask = bit_mask($1.bitnr_high, $1.bitnr_low);
+		t_mem v= expr_shl($3, $1.bitnr_low) & mask;
+		$1.memory->write($1.mem_address, ($1.memory->read($1.mem_address) & (~mask)) | v);
+		$$= expr_shr(v, $1.bitnr_low);
 	}
 | PTOK_CELL assignment_operator assignment_expr
 	{
@@ -404,10 +407,10 @@ assignment_expr
 	      $1->write(org *= $3);
 	      break;
 	    case PTOK_DIV_ASSIGN:
-	      $1->write(org /= $3);
+	      $1->write(expr_div(org, $3));
 	      break;
 	    case PTOK_MOD_ASSIGN:
-	      $1->write(org %= $3);
+	      $1->write(expr_mod(org, $3));
 	      break;
 	    case PTOK_ADD_ASSIGN:
 	      $1->write(org += $3);
@@ -416,10 +419,10 @@ assignment_expr
 	      $1->write(org -= $3);
 	      break;
 	    case PTOK_LEFT_ASSIGN:
-	      $1->write(org <<= $3);
+	      $1->write(expr_shl(org, $3));
 	      break;
 	    case PTOK_RIGHT_ASSIGN:
-	      $1->write(org >>= $3);
+	      $1->write(expr_shr(org, $3));
 	      break;
 	    case PTOK_AND_ASSIGN:
 	      $1->write(org &= $3);
@@ -500,3 +503,54 @@ yyerror (const char *msg)
 {
   application->dd_cprintf ("error", "Parser error: %s\n", msg);
 }
+
+static long
+expr_div(long a, long b)
+{
+  if (b == 0)
+    {
+      yyerror("Divide by zero");
+      return 0;
+    }
+  if (b == -1)
+    return -(unsigned long)a;
+  return a / b;
+}
+
+static long
+expr_mod(long a, long b)
+{
+  if (b == 0)
+    {
+      yyerror("Divide by zero");
+      return 0;
+    }
+  if (b == -1)
+    return 0;
+  return a % b;
+}
+
+static long
+expr_shl(long a, long n)
+{
+  if ((n < 0) || (n >= (long)sizeof(long)*8))
+    return 0;
+  return (unsigned long)a << n;
+}
+
+static long
+expr_shr(long a, long n)
+{
+  if ((n < 0) || (n >= (long)sizeof(long)*8))
+    return (a < 0)?-1:0;
+  return a >> n;
+}
+
+static t_mem
+bit_mask(int high, int low)
+{
+  t_mem mask= 0;
+  for (int i= (low < 0)?0:low; (i <= high) && (i < 32); i++)
+    mask|= 1U << i;
+  return mask;
+}
-- 
2.43.0


From 64925fe6b80b51cf04b67c561b6cfd9ac77dcad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:07 +0000
Subject: [PATCH 066/106] fix: expression evaluated while another one is
 evaluated

---
 src/core/cmd.src/cmdlex.l   | 47 +++++++++++++++++++++++++++++++++++++
 src/core/cmd.src/cmdlexcl.h |  2 ++
 src/core/utils.src/app.cc   | 12 ++++++++++
 3 files changed, 61 insertions(+)

diff --git a/src/core/cmd.src/cmdlex.l b/src/core/cmd.src/cmdlex.l
index b9835bf..6411c35 100644
--- a/src/core/cmd.src/cmdlex.l
+++ b/src/core/cmd.src/cmdlex.l
@@ -155,9 +155,56 @@ void
 uc_yy_free_string_to_parse()
 {
   free(string_to_parse);
+  string_to_parse= NULL;
   string_ptr=NULL;
 }
 
+/* Evaluation of an expression can start another one (access of a cell
+   by the expression can hit an event breakpoint which has condition).
+   State of the outer parser is put aside while the inner one runs. */
+
+struct uc_yy_state
+{
+  YY_BUFFER_STATE buffer;
+  char *string_to_parse;
+  const char *string_ptr;
+  int look_ahead, nerrs;
+  YYSTYPE value;
+};
+
+extern int yychar, yynerrs;
+
+void *
+uc_yy_push_state(void)
+{
+  struct uc_yy_state *s= new uc_yy_state;
+  s->buffer= YY_CURRENT_BUFFER;
+  s->string_to_parse= string_to_parse;
+  s->string_ptr= string_ptr;
+  s->look_ahead= yychar;
+  s->nerrs= yynerrs;
+  s->value= yylval;
+  string_to_parse= NULL;
+  string_ptr= NULL;
+  yy_switch_to_buffer(yy_create_buffer(yyin, YY_BUF_SIZE));
+  return s;
+}
+
+void
+uc_yy_pop_state(void *state)
+{
+  struct uc_yy_state *s= (struct uc_yy_state *)state;
+  yy_delete_buffer(YY_CURRENT_BUFFER);
+  if (s->buffer)
+    yy_switch_to_buffer(s->buffer);
+  string_to_parse= s->string_to_parse;
+  string_ptr= s->string_ptr;
+  yychar= s->look_ahead;
+  yynerrs= s->nerrs;
+  yylval= s->value;
+  delete s;
+}
+
 static int
 uc_yy_input(char *buf, int max_size)
 {
diff --git a/src/core/cmd.src/cmdlexcl.h b/src/core/cmd.src/cmdlexcl.h
index 0100ab5..b390b9a 100644
--- a/src/core/cmd.src/cmdlexcl.h
+++ b/src/core/cmd.src/cmdlexcl.h
@@ -5,5 +5,7 @@ int yylex();
 int yyparse();
 void uc_yy_set_string_to_parse(const char *cmdstr);
 void uc_yy_free_string_to_parse();
+void *uc_yy_push_state(void);
+void uc_yy_pop_state(void *state);
 
 #endif
diff --git a/src/core/utils.src/app.cc b/src/core/utils.src/app.cc
index 430834c..74a51ed 100644
--- a/src/core/utils.src/app.cc
+++ b/src/core/utils.src/app.cc
@@ -1070,10 +1070,22 @@ cl_app::get_cmd(class cl_cmdline *cmdline)
 t_mem
 cl_app::eval(chars expr)
 {
+  static int depth= 0;
+  void *outer= 0;
+
   expr_result= 0;
+  if (depth > 10)
+    // condition of a breakpoint hits the same breakpoint
+    return 0;
+  if (depth > 0)
+    outer= uc_yy_push_state();
+  depth++;
   uc_yy_set_string_to_parse(expr);
   yyparse();
   uc_yy_free_string_to_parse();
+  depth--;
+  if (outer)
+    uc_yy_pop_state(outer);
   return expr_result;
 }
 
-- 
2.43.0


From be47980bed03da4201482f5d383dc7ef059185dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:07 +0000
Subject: [PATCH 067/106] fix: bit address of a register variable, 32 bit wide
 bit masks

---
 src/core/cmd.src/cmd_set.cc | 2 +-
 src/core/sim.src/arg.cc     | 3 +++
 src/core/sim.src/var.cc     | 4 ++--
 src/core/sim.src/vcd.cc     | 2 +-
 4 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/core/cmd.src/cmd_set.cc b/src/core/cmd.src/cmd_set.cc
index 6280b02..74edd70 100644
--- a/src/core/cmd.src/cmd_set.cc
+++ b/src/core/cmd.src/cmd_set.cc
@@ -107,7 +107,7 @@ COMMAND_DO_WORK_UC(cl_set_mem_cmd)
             con->dd_printf("Error: excess data for bit(s)\n");
           else
             {
-              t_mem mask= ((1U << (bitnr_high - bitnr_low + 1)) - 1) << bitnr_low;
+              t_mem mask= ((1ULL << (bitnr_high - bitnr_low + 1)) - 1) << bitnr_low;
               mem->write(start, (mem->get(start) & (~mask)) | ((array[0] << bitnr_low) & mask));
               uc->check_errors();
               mem->dump(start, bitnr_high, bitnr_low, con);
diff --git a/src/core/sim.src/arg.cc b/src/core/sim.src/arg.cc
index 944c253..5b27e19 100644
--- a/src/core/sim.src/arg.cc
+++ b/src/core/sim.src/arg.cc
@@ -312,6 +312,9 @@ cl_cmd_sym_arg::get_bit_address(class cl_uc *uc, // input
   if (uc->vars->by_name.search(get_svalue(), i))
     {
       class cl_var *v= (cl_var*)uc->vars->by_name.at(i);
+      if (v->get_mem() == NULL)
+        // cell of a register, it is not in memory
+        return false;
       if (mem)
         *mem= v->get_mem();
       if (mem_addr)
diff --git a/src/core/sim.src/var.cc b/src/core/sim.src/var.cc
index fd54633..69917d0 100644
--- a/src/core/sim.src/var.cc
+++ b/src/core/sim.src/var.cc
@@ -98,7 +98,7 @@ cl_cvar::print_info(cl_console_base *con) const
           con->dd_printf("[%u:%u] = 0b", bitnr_high, bitnr_low);
           for (int i= bitnr_high; i >= bitnr_low; i--)
             con->dd_printf("%c", (m & (1U << i)) ? '1' : '0');
-          m &= ((1U << (bitnr_high - bitnr_low + 1)) - 1) << bitnr_low;
+          m &= ((1ULL << (bitnr_high - bitnr_low + 1)) - 1) << bitnr_low;
         }
       else
         {
@@ -157,7 +157,7 @@ cl_var::print_info(cl_console_base *con) const
           con->dd_printf("[%u:%u] = 0b", bitnr_high, bitnr_low);
           for (int i= bitnr_high; i >= bitnr_low; i--)
             con->dd_printf("%c", (m & (1U << i)) ? '1' : '0');
-          m &= ((1U << (bitnr_high - bitnr_low + 1)) - 1) << bitnr_low;
+          m &= ((1ULL << (bitnr_high - bitnr_low + 1)) - 1) << bitnr_low;
         }
       else
         {
diff --git a/src/core/sim.src/vcd.cc b/src/core/sim.src/vcd.cc
index 4e9b467..afb565b 100644
--- a/src/core/sim.src/vcd.cc
+++ b/src/core/sim.src/vcd.cc
@@ -121,7 +121,7 @@ cl_vcd_var::cl_vcd_var(class cl_vcd *vcd, char var_id, class cl_memory_cell *cel
   this->bitnr_high = bitnr_high;
   this->bitnr_low = bitnr_low;
 
-  bitmask = ((1U << (bitnr_high - bitnr_low + 1)) - 1) << bitnr_low;
+  bitmask = ((1ULL << (bitnr_high - bitnr_low + 1)) - 1) << bitnr_low;
 
   if (!(this->var_id = var_id))
     {
-- 
2.43.0


From 7e646d7109665ebc31bc48aa15fcdd84edf402e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:07 +0000
Subject: [PATCH 068/106] fix: negative index of options

---
 src/core/utils.src/option.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/utils.src/option.cc b/src/core/utils.src/option.cc
index af1d766..6e6af93 100644
--- a/src/core/utils.src/option.cc
+++ b/src/core/utils.src/option.cc
@@ -336,7 +336,7 @@ cl_options::get_option(const char *the_name, const char *creator)
 class cl_option *
 cl_options::get_option(int idx)
 {
-  if (idx >= count)
+  if ((idx < 0) || (idx >= count))
     return(0);
   return((class cl_option *)(at(idx)));
 }
-- 
2.43.0


From a481e5278eec65d4cefcf30fd0a7c8485a687352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:07 +0000
Subject: [PATCH 069/106] fix: tokens of unterminated strings and escapes at
 end of line

---
 src/core/cmd.src/command.cc | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/core/cmd.src/command.cc b/src/core/cmd.src/command.cc
index e37f092..a9a1ee2 100644
--- a/src/core/cmd.src/command.cc
+++ b/src/core/cmd.src/command.cc
@@ -419,10 +419,10 @@ cl_cmdline::token_length(char *start)
       for (i=1; start[i]!=0 && start[i]!='\"'; i++)
 	{
 	  c= start[i];
-	  if (c == '\\')
-	    i+= 2;
+	  if ((c == '\\') && (start[i+1] != 0))
+	    i++;
 	}
-      return i+1;
+      return start[i]?(i+1):i;
     }
   else
     return strcspn(start, " \t\v\r,;");
@@ -444,9 +444,9 @@ cl_cmdline::get_token(char *start)
 	  c= start[i];
 	  if (c == '\\')
 	    {
-	      i++;
-	      if (start[i])
+	      if (start[i+1])
 		{
+		  i++;
 		  switch (start[i])
 		    {
 		    case 'a': cs+= '\a'; break;
@@ -492,12 +492,14 @@ cl_cmdline::expand_commands(chars *params)
     {
       if (s[i] == '\\')
 	{
-	  i++;
+	  if (s[i+1])
+	    i++;
 	}
       else if (s[i] == '$')
 	{
-	  if (s[++i] == '(')
+	  if (s[i+1] == '(')
 	    {
+	      i++;
 	      if ((level == 0) && s[i+1])
 		start= ++i;
 	      level++;
-- 
2.43.0


From 5abcb8ed653e7ded2742c6e8d548c8e0dc13b427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:07 +0000
Subject: [PATCH 070/106] fix: operation of a break command which is a number

---
 src/core/cmd.src/cmd_bp.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/core/cmd.src/cmd_bp.cc b/src/core/cmd.src/cmd_bp.cc
index 32c581d..38c80ed 100644
--- a/src/core/cmd.src/cmd_bp.cc
+++ b/src/core/cmd.src/cmd_bp.cc
@@ -45,6 +45,13 @@ Software Foundation, 59 Temple Place - Suite 330, Boston, MA
  * BREAK command
  */
 
+static char
+event_of(class cl_cmd_arg *arg)
+{
+  char *s= arg->get_svalue();
+  return s?(*s):0;
+}
+
 //int
 //cl_break_cmd::do_work(class cl_sim *sim,
 //		      class cl_cmdline *cmdline, class cl_console *con)
@@ -148,7 +155,7 @@ COMMAND_DO_WORK_UC(cl_break_cmd)
   }
   else if (cmdline->syntax_match(uc, MEMORY STRING ADDRESS NUMBER STRING STRING)) {
     mem= params[0]->value.memory.address_space;
-    op= *(params[1]->get_svalue());
+    op= event_of(params[1]);
     addr= params[2]->value.address;
     hit= params[3]->value.number;
     s= params[4]->get_svalue();
@@ -158,14 +165,14 @@ COMMAND_DO_WORK_UC(cl_break_cmd)
   }
   else if (cmdline->syntax_match(uc, MEMORY STRING ADDRESS NUMBER)) {
     mem= params[0]->value.memory.address_space;
-    op= *(params[1]->get_svalue());
+    op= event_of(params[1]);
     addr= params[2]->value.address;
     hit= params[3]->value.number;
     do_event(uc, mem, op, addr, hit, cond, con);
   }
   else if (cmdline->syntax_match(uc, MEMORY STRING ADDRESS STRING STRING)) {
     mem= params[0]->value.memory.address_space;
-    op= *(params[1]->get_svalue());
+    op= event_of(params[1]);
     addr= params[2]->value.address;
     hit= 1;
     s= params[3]->get_svalue();
@@ -175,7 +182,7 @@ COMMAND_DO_WORK_UC(cl_break_cmd)
   }
   else if (cmdline->syntax_match(uc, MEMORY STRING ADDRESS)) {
     mem= params[0]->value.memory.address_space;
-    op= *(params[1]->get_svalue());
+    op= event_of(params[1]);
     addr= params[2]->value.address;
     hit= 1;
     do_event(uc, mem, op, addr, hit, cond, con);
-- 
2.43.0


From d3940c29b332a6409b5fae0a8e53e45bb60865d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:07 +0000
Subject: [PATCH 071/106] fix: startup commands can step and can execute files

---
 src/core/cmd.src/newcmd.cc       |  5 ++++-
 src/core/cmd.src/newcmdcl.h      |  1 +
 src/core/cmd.src/newcmdposix.cc  |  3 +++
 src/core/cmd.src/newcmdposixcl.h |  1 +
 src/core/utils.src/app.cc        | 14 ++++++++++++--
 5 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/core/cmd.src/newcmd.cc b/src/core/cmd.src/newcmd.cc
index f3a92fd..20578d1 100644
--- a/src/core/cmd.src/newcmd.cc
+++ b/src/core/cmd.src/newcmd.cc
@@ -188,7 +188,8 @@ cl_console_base::print_prompt(void)
   if (!(flags & CONS_INTERACTIVE))
     return;
   
-  if (null_prompt_option->get_value(bool(0)))
+  if (null_prompt_option &&
+      null_prompt_option->get_value(bool(0)))
     {
       class cl_f *fo= get_fout(), *fi= get_fin();
       char c= 0;
@@ -939,6 +940,8 @@ void
 cl_commander_base::del_console(class cl_console_base *console)
 {
   cons->disconn(console);
+  if (config_console == console)
+    config_console= console->get_parent();
   if (frozen_console == console)
     frozen_console= 0;
   if (actual_console == console)
diff --git a/src/core/cmd.src/newcmdcl.h b/src/core/cmd.src/newcmdcl.h
index 1caff46..1678616 100644
--- a/src/core/cmd.src/newcmdcl.h
+++ b/src/core/cmd.src/newcmdcl.h
@@ -123,6 +123,7 @@ class cl_console_base: public cl_base
   virtual ~cl_console_base(void);
   
   virtual class cl_console_base *clone_for_exec(char *fin) = 0;
+  virtual class cl_console_base *get_parent(void) { return 0; }
 
   virtual void redirect(const char *fname, const char *mode) = 0;
   virtual void un_redirect(void) = 0;
diff --git a/src/core/cmd.src/newcmdposix.cc b/src/core/cmd.src/newcmdposix.cc
index 65b18ee..5171a5b 100644
--- a/src/core/cmd.src/newcmdposix.cc
+++ b/src/core/cmd.src/newcmdposix.cc
@@ -389,6 +389,9 @@ cl_sub_console::init(void)
 
   if (parent && c)
     {
+      // file executed by the config console belongs to the config too
+      if (c->config_console == parent)
+	c->config_console= this;
       c->deactivate_console(parent);
     }
   cl_console::init();
diff --git a/src/core/cmd.src/newcmdposixcl.h b/src/core/cmd.src/newcmdposixcl.h
index 5838bf7..c2e4f7e 100644
--- a/src/core/cmd.src/newcmdposixcl.h
+++ b/src/core/cmd.src/newcmdposixcl.h
@@ -94,6 +94,7 @@ class cl_sub_console: public cl_console
   cl_sub_console(class cl_console_base *the_parent,
                  class cl_f *fin, class cl_f *fout, class cl_app *the_app);
   virtual ~cl_sub_console(void);
+  virtual class cl_console_base *get_parent(void) { return parent; }
   virtual int init(void);
 };
 
diff --git a/src/core/utils.src/app.cc b/src/core/utils.src/app.cc
index 74a51ed..e3a27a7 100644
--- a/src/core/utils.src/app.cc
+++ b/src/core/utils.src/app.cc
@@ -125,8 +125,18 @@ cl_app::read_conf_file(void)
 {
   /* read config file (-C option) */
   while (commander->config_console != NULL)
-    if (commander->input_avail())
-      commander->proc_input();
+    {
+      if (sim && (sim->state & (SIM_GO|SIM_STARTEMU)))
+	{
+	  // Simulation started by the config: let it go, rest of the
+	  // file is processed when it stops
+	  commander->config_console= NULL;
+	  commander->update_active();
+	  break;
+	}
+      if (commander->input_avail())
+	commander->proc_input();
+    }
 }
 
 void
-- 
2.43.0


From f93cd0f4d7ecff3a80e75a7755714e2517592abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:00 +0000
Subject: [PATCH 072/106] fix: bank switcher mask with bit 31 set

---
 src/core/sim.src/mem.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 815225d..b439a23 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -2608,7 +2608,7 @@ cl_banker::cl_banker(class cl_address_space *the_banker_as,
 int
 cl_banker::init()
 {
-  int m= banker_mask;
+  t_mem m= banker_mask;
   int b, b2;
 
   shift_by= 0;
-- 
2.43.0


From fa94fdb00b2e3679885122955d25240833b72e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:22 +0000
Subject: [PATCH 073/106] fix: Intel HEX record with bad checksum must not end
 the load

The loop of the loader ended on any record whose type byte is 1, even if
the record was dropped because of its checksum, so everything after a
damaged record could silently be lost.
---
 src/core/sim.src/uc.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 649a4cb..314bf80 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -1708,8 +1708,12 @@ cl_uc::read_hex_file(class cl_inspec *is, cl_f *f, bool check)
 			      rtyp, rtyp);
 		}
 	      else
-		fprintf(stderr, "Checksum error (%x instead of %x) in "
-			"record %ld.\n", chk, sum, recnum);
+		{
+		  fprintf(stderr, "Checksum error (%x instead of %x) in "
+			  "record %ld.\n", chk, sum, recnum);
+		  // bad record can not finish the file
+		  rtyp= 0;
+		}
 	    }
 	  else
 	    fprintf(stderr, "Read error in record %ld.\n", recnum);
-- 
2.43.0


From 43cfb0d32e1cca2128e7fde931754d17865f3f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:22 +0000
Subject: [PATCH 074/106] fix: extended segment address records of Intel HEX
 files

Type 2 records were reported as unknown and the data after them was
stored at wrong addresses.
---
 src/core/sim.src/uc.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 314bf80..0ce1465 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -1702,6 +1702,12 @@ cl_uc::read_hex_file(class cl_inspec *is, cl_f *f, bool check)
 			  base= (rec[0]*256+rec[1]) << 16;
 			}
 		    }
+		  else if (rtyp == 2)
+		    {
+		      // extended segment address
+		      if (dnum >= 2)
+			base= (rec[0]*256+rec[1]) << 4;
+		    }
 		  else
 		    if (rtyp != 1)
 		      fprintf(stderr, "Unknown record type %d(0x%x)\n",
-- 
2.43.0


From cc676eda90811f04bc5975ac7102df57acbadd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:22 +0000
Subject: [PATCH 075/106] fix: S-records which start or end inside a word of a
 wide memory

The odd byte of the address was dropped, so bytes were moved to other
places of the word, and the next record overwrote the word started by
the previous one.
---
 src/core/sim.src/uc.cc | 91 +++++++++++++++++++-----------------------
 1 file changed, 41 insertions(+), 50 deletions(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 0ce1465..ba40078 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -2099,56 +2099,44 @@ static t_addr a32(const char *s, int p)
   return a;
 }
 
-static int s19(class cl_inspec *is, class cl_uc *uc, t_addr a, const char *s, int p, int data_bytes, bool check)
+// Word of a wide memory, being assembled from the bytes of the records
+struct s19_word {
+  int nr;
+  t_addr addr;
+  t_mem val;
+};
+
+static void s19_flush(class cl_inspec *is, class cl_uc *uc, struct s19_word *w, bool check)
 {
-  int b= 0;
-  u8_t d, d0, d1, d2, d3;
-  t_mem v;
+  if (w->nr)
+    uc->set_rom(is, w->addr, w->val, check);
+  w->nr= 0;
+  w->val= 0;
+}
+
+static int s19(class cl_inspec *is, class cl_uc *uc, t_addr a, const char *s, int p, int data_bytes, bool check, struct s19_word *w)
+{
+  int b;
+  unsigned int wi, wbytes, width= is->get_mem()->width;
+  t_addr wa;
   if (data_bytes < 1)
     return 0;
-  if (is->get_mem()->width > 8)
-    {
-      if (is->get_mem()->width <= 16) a/= 2;
-      else if (is->get_mem()->width <= 24) a/= 3;
-      else if (is->get_mem()->width <= 32) a/= 4;
-    }
-  while (b < data_bytes)
-    {
-      if (is->get_mem()->width <= 8)
-	{
-	  d= h2(s, p);
-	  uc->set_rom(is, a, d, check);
-	  a++;
-	  p+= 2;
-	  b++;
-	}
-      else if (is->get_mem()->width <= 16)
-	{
-	  d0= (b<data_bytes)?h2(s, p):0; p+= 2; b++;
-	  d1= (b<data_bytes)?h2(s, p):0; p+= 2; b++;
-	  v= (d1<<8)+d0;
-	  uc->set_rom(is, a, v, check);
-	  a++;
-	}
-      else if (is->get_mem()->width <= 24)
-	{
-	  d0= (b<data_bytes)?h2(s, p):0; p+= 2; b++;
-	  d1= (b<data_bytes)?h2(s, p):0; p+= 2; b++;
-	  d2= (b<data_bytes)?h2(s, p):0; p+= 2; b++;
-	  v= (d2<<16)+(d1<<8)+d0;
-	  uc->set_rom(is, a, v, check);
-	  a++;
-	}
-      else if (is->get_mem()->width <= 32)
-	{
-	  d0= (b<data_bytes)?h2(s, p):0; p+= 2; b++;
-	  d1= (b<data_bytes)?h2(s, p):0; p+= 2; b++;
-	  d2= (b<data_bytes)?h2(s, p):0; p+= 2; b++;
-	  d3= (b<data_bytes)?h2(s, p):0; p+= 2; b++;
-	  v= (d3<<24)+(d2<<16)+(d1<<8)+d0;
-	  uc->set_rom(is, a, v, check);
-	  a++;
-	}
+  wbytes= (width <= 8)?1:((width <= 16)?2:((width <= 24)?3:4));
+  for (b= 0; b < data_bytes; b++)
+    {
+      // words are little endian, records use byte addresses
+      wa= a / wbytes;
+      wi= a % wbytes;
+      if (wa != w->addr)
+	s19_flush(is, uc, w, check);
+      w->addr= wa;
+      w->val&= ~((t_mem)0xff << (wi*8));
+      w->val|= (t_mem)h2(s, p) << (wi*8);
+      w->nr++;
+      if (wi == wbytes-1)
+	s19_flush(is, uc, w, check);
+      a++;
+      p+= 2;
     }
   return data_bytes;
 }
@@ -2159,6 +2147,7 @@ cl_uc::read_s19_file(class cl_inspec *is, cl_f *f, bool check)
   chars line;
   int cnt;
   long int written= 0;
+  struct s19_word w= { 0, 0, 0 };
   while (!f->eof())
     {
       line= f->get_s();
@@ -2194,17 +2183,17 @@ cl_uc::read_s19_file(class cl_inspec *is, cl_f *f, bool check)
 	case '1':
 	  a= a16(s, 4);
 	  p=  8;
-	  written+= s19(is, this, a, s, p, cnt-2-1, check);
+	  written+= s19(is, this, a, s, p, cnt-2-1, check, &w);
 	  break;
 	case '2':
 	  a= a24(s, 4);
 	  p= 10;
-	  written+= s19(is, this, a, s, p, cnt-3-1, check);
+	  written+= s19(is, this, a, s, p, cnt-3-1, check, &w);
 	  break;
 	case '3':
 	  a= a32(s, 4);
 	  p= 12;
-	  written+= s19(is, this, a, s, p, cnt-4-1, check);
+	  written+= s19(is, this, a, s, p, cnt-4-1, check, &w);
 	  break;
 	case '4': break;
 	case '5': break;
@@ -2214,6 +2203,8 @@ cl_uc::read_s19_file(class cl_inspec *is, cl_f *f, bool check)
 	case '9': break;
 	}
     }
+  // last word may be incomplete
+  s19_flush(is, this, &w, check);
   return written;
 }
 
-- 
2.43.0


From 40a943d8ca760538f62ee195bde9a0861b3d6816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:04 +0000
Subject: [PATCH 076/106] fix: removing a chip used by both decoders and
 bankers

Bankers could be collected more than once and then deleted again.
---
 src/core/sim.src/uc.cc | 33 ++++-----------------------------
 1 file changed, 4 insertions(+), 29 deletions(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index ba40078..8c40b5f 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -1386,41 +1386,16 @@ cl_uc::remove_chip(class cl_memory *chip)
     {
       as= (class cl_address_space *)(address_spaces->at(i));
       j= 0;
-      class cl_list bankers;
-      bankers.init();
       while (j < as->decoders->get_count())
 	{
-	  for (j= 0; j < as->decoders->get_count(); j++)
+	  ad= (class cl_address_decoder *)(as->decoders->at(j));
+	  if (ad->uses_chip(chip))
 	    {
-	      t_addr as_start, as_end;
-	      ad= (class cl_address_decoder *)(as->decoders->at(j));
-	      as_start= ad->as_begin;
-	      as_end= ad->as_end;
-	      if (ad->memchip == chip)
-		{
-		  as->undecode_area(NULL, as_start, as_end, NULL);
-		  break;
-		}
-	      if (ad->is_banker())
-		{
-		  if (ad->uses_chip(chip))
-		    {
-		      bankers.add(ad);
-		    }
-		}
-	    }
-	}
-      if (bankers.count > 0)
-	{
-	  int i;
-	  for (i= 0; i < bankers.count; i++)
-	    {
-	      class cl_address_decoder *ad;
-	      ad= (class cl_address_decoder *)(bankers.at(i));
 	      as->decoders->disconn(ad);
 	      delete ad;
 	    }
-	  bankers.disconn_all();
+	  else
+	    j++;
 	}
     }
   memchips->disconn(chip);
-- 
2.43.0


From 4183262cbfb1b8320a228cf224fb54a76a23be6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:04 +0000
Subject: [PATCH 077/106] fix: redefining a bank of a banked area must not
 undecode the area

Decoder of a bank undecoded the cells of the area when it was deleted,
even if an other bank was selected.
---
 src/core/sim.src/mem.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index b439a23..5e563fe 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -2724,7 +2724,8 @@ cl_banker::add_bank(int bank_nr, class cl_memory *chip, t_addr chip_start)
       (bank_nr >= nuof_banks))
     return;
   
-  class cl_address_decoder *ad= new cl_address_decoder(address_space,
+  // it does not decode the area itself, banker does
+  class cl_address_decoder *ad= new cl_address_decoder(NULL,
 						       chip,
 						       as_begin, as_end,
 						       chip_start);
-- 
2.43.0


From ff50182cce3be3102d765c53f980edd9ee0f9901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:04 +0000
Subject: [PATCH 078/106] fix: bankers and banders partly covered by a new
 decoder

When the start of a banked or bit banded area was cut, or the area was
split, remaining cells were mapped to wrong places or lost.
---
 src/core/sim.src/mem.cc  | 70 +++++++++++++++++++++++++++++++++++++++-
 src/core/sim.src/memcl.h |  7 ++++
 2 files changed, 76 insertions(+), 1 deletion(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 5e563fe..b6b6254 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -2751,6 +2751,44 @@ cl_banker::add_bank(int bank_nr, class cl_memory *chip, t_addr chip_start)
   activate(0);
 }
 
+bool
+cl_banker::shrink_out_of(t_addr begin, t_addr end)
+{
+  t_addr b= as_begin;
+  bool ret= cl_address_decoder::shrink_out_of(begin, end);
+  int i;
+  // banks must follow the start of the area
+  for (i= 0; i < nuof_banks; i++)
+    if (banks[i])
+      banks[i]->chip_begin+= as_begin-b;
+  return ret;
+}
+
+class cl_address_decoder *
+cl_banker::split(t_addr begin, t_addr end)
+{
+  class cl_banker *nd= 0;
+  int i;
+  if ((begin > as_begin) &&
+      (end < as_end))
+    {
+      nd= new cl_banker(banker_as, banker_addr, banker_mask,
+			banker2_as, banker2_addr, banker2_mask, banker2_shift,
+			address_space, end+1, as_end);
+      nd->init();
+      for (i= 0; i < nuof_banks; i++)
+	if (banks[i])
+	  nd->banks[i]=
+	    new cl_address_decoder(NULL, banks[i]->memchip, end+1, as_end,
+				   banks[i]->chip_begin+(end-as_begin)+1);
+    }
+  shrink_out_of((begin > as_begin)?begin:as_begin,
+		(begin > as_begin)?as_end:end);
+  if (nd && (bank >= 0))
+    nd->switch_to(bank, NULL);
+  return nd;
+}
+
 t_mem
 cl_banker::actual_bank()
 {
@@ -2915,6 +2953,36 @@ cl_bander::cl_bander(class cl_address_space *the_as,
 {
   bpc= the_bpc;
   distance= the_distance;
+  first_bit= 0;
+}
+
+bool
+cl_bander::shrink_out_of(t_addr begin, t_addr end)
+{
+  t_addr b= as_begin, cb= chip_begin;
+  bool ret= cl_address_decoder::shrink_out_of(begin, end);
+  t_addr bit= first_bit + (as_begin-b);
+  chip_begin= cb + bit/bpc*distance;
+  first_bit= bit%bpc;
+  return ret;
+}
+
+class cl_address_decoder *
+cl_bander::split(t_addr begin, t_addr end)
+{
+  class cl_bander *nd= 0;
+  if ((begin > as_begin) &&
+      (end < as_end))
+    {
+      t_addr bit= first_bit + (end+1-as_begin);
+      nd= new cl_bander(address_space, end+1, as_end, memchip,
+			chip_begin + bit/bpc*distance, bpc, distance);
+      nd->init();
+      nd->first_bit= bit%bpc;
+    }
+  shrink_out_of((begin > as_begin)?begin:as_begin,
+		(begin > as_begin)?as_end:end);
+  return nd;
 }
 
 bool
@@ -2924,7 +2992,7 @@ cl_bander::activate(class cl_console_base *con)
 
   t_addr asa, ca;
   int b, m;
-  for (asa= as_begin, ca= chip_begin, b= 0, m= 1;
+  for (asa= as_begin, ca= chip_begin, b= first_bit, m= 1 << first_bit;
        asa <= as_end;
        asa++)
     {
diff --git a/src/core/sim.src/memcl.h b/src/core/sim.src/memcl.h
index a875a40..fc0009c 100644
--- a/src/core/sim.src/memcl.h
+++ b/src/core/sim.src/memcl.h
@@ -738,6 +738,9 @@ class cl_banker: public cl_address_decoder
 
   virtual void add_bank(int bank_nr, class cl_memory *chip, t_addr chip_start);
 
+  virtual bool shrink_out_of(t_addr begin, t_addr end);
+  virtual class cl_address_decoder *split(t_addr begin, t_addr end);
+
   virtual t_mem actual_bank();
   virtual bool activate(class cl_console_base *con);
   virtual bool switch_to(int bank_nr, class cl_console_base *con);
@@ -756,6 +759,7 @@ class cl_bander: public cl_address_decoder
  protected:
   int bpc; // bits_per_chip
   int distance; // distance of next chip location
+  int first_bit; // bit where the area begins
  public:
   cl_bander(class cl_address_space *the_as,
 	    t_addr the_asb,
@@ -767,6 +771,9 @@ class cl_bander: public cl_address_decoder
  public:
   virtual bool is_bander() { return true; }
 
+  virtual bool shrink_out_of(t_addr begin, t_addr end);
+  virtual class cl_address_decoder *split(t_addr begin, t_addr end);
+
   virtual bool activate(class cl_console_base *con);
   virtual void print_info(const char *pre, class cl_console_base *con);
 };
-- 
2.43.0


From 057ed672544670dad6fa7b8539af254a84fbcef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:15 +0000
Subject: [PATCH 079/106] fix: user defined time scale of VCD output

---
 src/core/sim.src/vcd.cc | 41 ++++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/src/core/sim.src/vcd.cc b/src/core/sim.src/vcd.cc
index afb565b..820340f 100644
--- a/src/core/sim.src/vcd.cc
+++ b/src/core/sim.src/vcd.cc
@@ -674,7 +674,8 @@ cl_vcd::set_cmd(class cl_cmdline *cmdline, class cl_console_base *con)
           else
             con->dd_printf("Units must be ms, us, ns, ps or fs\n");
           if (p1[0] == 't')
-            timescale = time;
+            // seconds per unit in input, units per second in output
+            timescale = (state != -1 || time <= 0) ? time : 1.0 / time;
           else if (p1[0] == 'p')
             {
               pausetime = time;
@@ -787,18 +788,16 @@ cl_vcd::set_cmd(class cl_cmdline *cmdline, class cl_console_base *con)
 		      else
 			fprintf(fd, "$date\n\t%s$end\n", ctime(&now));
 		      fprintf(fd, "$version\n\tucsim\n$end\n$timescale ");
-                      if (timescale >= 1e15)
-                        fprintf(fd, "%.0ffs", timescale * 1e-15);
-                      else if (timescale >= 1e12)
-                        fprintf(fd, "%.0fps", timescale * 1e-12);
-                      else if (timescale >= 1e9)
-                        fprintf(fd, "%.0fns", timescale * 1e-9);
-                      else if (timescale >= 1e6)
-                        fprintf(fd, "%.0fus", timescale * 1e-6);
-                      else if (timescale >= 1e3)
-                        fprintf(fd, "%.0fms", timescale * 1e-3);
+                      if (timescale > 1.000001e12)
+                        fprintf(fd, "%.0ffs", 1e15 / timescale);
+                      else if (timescale > 1.000001e9)
+                        fprintf(fd, "%.0fps", 1e12 / timescale);
+                      else if (timescale > 1.000001e6)
+                        fprintf(fd, "%.0fns", 1e9 / timescale);
+                      else if (timescale > 1.000001e3)
+                        fprintf(fd, "%.0fus", 1e6 / timescale);
                       else
-                        fprintf(fd, "%.0fms", timescale * 1e3);
+                        fprintf(fd, "%.0fms", 1e3 / timescale);
 
                       fprintf(fd, " $end\n$scope module %s $end\n", modul.c_str());
 
@@ -1145,16 +1144,16 @@ cl_vcd::print_info(class cl_console_base *con)
         con->dd_printf("  Time scale: auto set on start\n");
       else
         {
-          if (timescale >= 1e15)
-            con->dd_printf("  Time scale: %.0f fs\n", timescale * 1e-15);
-          else if (timescale >= 1e12)
-            con->dd_printf("  Time scale: %.0f ps\n", timescale * 1e-12);
-          else if (timescale >= 1e9)
-            con->dd_printf("  Time scale: %.0f ns\n", timescale * 1e-9);
-          else if (timescale >= 1e6)
-            con->dd_printf("  Time scale: %.0f us\n", timescale * 1e-6);
+          if (timescale > 1.000001e12)
+            con->dd_printf("  Time scale: %.0f fs\n", 1e15 / timescale);
+          else if (timescale > 1.000001e9)
+            con->dd_printf("  Time scale: %.0f ps\n", 1e12 / timescale);
+          else if (timescale > 1.000001e6)
+            con->dd_printf("  Time scale: %.0f ns\n", 1e9 / timescale);
+          else if (timescale > 1.000001e3)
+            con->dd_printf("  Time scale: %.0f us\n", 1e6 / timescale);
           else
-            con->dd_printf("  Time scale: %.0f ms\n", timescale * 1e-3);
+            con->dd_printf("  Time scale: %.0f ms\n", 1e3 / timescale);
         }
     }
 
-- 
2.43.0


From 2b9108a9983975207ec58af1d429e0584e943c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:33 +0000
Subject: [PATCH 080/106] fix: deleting variables of a VCD file

---
 src/core/sim.src/vcd.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/core/sim.src/vcd.cc b/src/core/sim.src/vcd.cc
index 820340f..9032db1 100644
--- a/src/core/sim.src/vcd.cc
+++ b/src/core/sim.src/vcd.cc
@@ -227,6 +227,12 @@ cl_vcd::add_var(class cl_console_base *con, char var_id, class cl_memory_cell *c
 void
 cl_vcd::del_var(class cl_console_base *con, class cl_memory_cell *cell, int bitnr_low, int bitnr_high)
 {
+  if (cell && bitnr_high == -1)
+    bitnr_high = cell->get_width() - 1;
+
+  if (bitnr_low == -1)
+    bitnr_low = 0;
+
   for (class cl_vcd_var **var_p = &vars; *var_p; var_p = &((*var_p)->next_var))
     {
       if ((*var_p)->cell == cell)
@@ -272,7 +278,7 @@ cl_vcd::del_var(class cl_console_base *con, class cl_memory *m, t_addr a, int bi
 {
   if (!m->is_address_space())
     {
-      if (con) con->dd_printf("%s is not an address space\n");
+      if (con) con->dd_printf("%s is not an address space\n", m->get_name());
       return;
     }
   if (!m->valid_address(a))
@@ -594,7 +600,7 @@ cl_vcd::set_cmd(class cl_cmdline *cmdline, class cl_console_base *con)
           if (strcmp(p1, "add") == 0)
             add_var(con, params[1]->value.memory.memory, params[2]->value.address, params[3]->value.number, params[4]->value.number);
           else if (strstr(p1, "del") == p1)
-            del_var(con, params[1]->value.memory.memory, params[2]->value.address, params[3]->value.number, params[4]->value.number);
+            del_var(con, params[1]->value.memory.memory, params[2]->value.address, params[4]->value.number, params[3]->value.number);
           return true;
         }
       return false;
@@ -633,7 +639,7 @@ cl_vcd::set_cmd(class cl_cmdline *cmdline, class cl_console_base *con)
           if (strcmp(p1, "add") == 0)
             add_var(con, params[1]->value.cell, params[2]->value.number, params[3]->value.number);
           else if (strstr(p1, "del") == p1)
-            del_var(con, params[1]->value.cell, params[2]->value.number, params[3]->value.number);
+            del_var(con, params[1]->value.cell, params[3]->value.number, params[2]->value.number);
           return true;
         }
       return false;
-- 
2.43.0


From edd40d0f96f0f621521f79031fae607c5f076042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:33 +0000
Subject: [PATCH 081/106] fix: VCD logs whole cells instead of bit variables

---
 src/core/sim.src/vcd.cc | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/core/sim.src/vcd.cc b/src/core/sim.src/vcd.cc
index 9032db1..88dac31 100644
--- a/src/core/sim.src/vcd.cc
+++ b/src/core/sim.src/vcd.cc
@@ -548,19 +548,6 @@ cl_vcd::set_cmd(class cl_cmdline *cmdline, class cl_console_base *con)
   */
   if (0)
     ;
-  else if (cmdline->syntax_match(uc, STRING CELL)) // DEL|ADD
-    {
-      char *p1= params[0]->value.string.string;
-      if (p1 && *p1)
-        {
-          if (strcmp(p1, "add") == 0)
-            add_var(con, params[1]->value.cell, -1, -1);
-          else if (strstr(p1, "del") == p1)
-            del_var(con, params[1]->value.cell, -1, -1);
-          return true;
-        }
-      return false;
-    }
   else if (cmdline->syntax_match(uc, STRING BIT)) // DEL|ADD
     {
       char *p1= params[0]->value.string.string;
@@ -592,6 +579,19 @@ cl_vcd::set_cmd(class cl_cmdline *cmdline, class cl_console_base *con)
         }
       return false;
     }
+  else if (cmdline->syntax_match(uc, STRING CELL)) // DEL|ADD
+    {
+      char *p1= params[0]->value.string.string;
+      if (p1 && *p1)
+        {
+          if (strcmp(p1, "add") == 0)
+            add_var(con, params[1]->value.cell, -1, -1);
+          else if (strstr(p1, "del") == p1)
+            del_var(con, params[1]->value.cell, -1, -1);
+          return true;
+        }
+      return false;
+    }
   else if (cmdline->syntax_match(uc, STRING MEMORY ADDRESS NUMBER NUMBER)) // DEL|ADD
     {
       char *p1= params[0]->value.string.string;
-- 
2.43.0


From 4d596f0f287283aa9609580a167b29da746501f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:33 +0000
Subject: [PATCH 082/106] fix: message of pausing a VCD which is not started

---
 src/core/sim.src/vcd.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/sim.src/vcd.cc b/src/core/sim.src/vcd.cc
index 88dac31..bd1fbcb 100644
--- a/src/core/sim.src/vcd.cc
+++ b/src/core/sim.src/vcd.cc
@@ -927,7 +927,7 @@ cl_vcd::set_cmd(class cl_cmdline *cmdline, class cl_console_base *con)
                     }
                 }
               else
-                con->dd_printf("Not started");
+                con->dd_printf("Not started\n");
               return true;
             }
           if (strcmp(p1, "stop") == 0)
-- 
2.43.0


From 85e84680767ef97124abc1c543d367b8ec749ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:19 +0000
Subject: [PATCH 083/106] fix: start time of VCD input was counted twice in the
 first event

---
 src/core/sim.src/vcd.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core/sim.src/vcd.cc b/src/core/sim.src/vcd.cc
index bd1fbcb..43bf0c1 100644
--- a/src/core/sim.src/vcd.cc
+++ b/src/core/sim.src/vcd.cc
@@ -395,7 +395,8 @@ cl_vcd::parse_header(cl_console_base *con)
         {
           if (token[0] == '#')
             {
-              event = starttime + timescale * strtod(&token[1], NULL);
+              // start time will be added when it is started
+              event = timescale * strtod(&token[1], NULL);
               //uc->sim->app->debug("vcd[%d]: first event at %.15f\n", cl_hw::id, event);
               break;
             }
@@ -692,7 +693,9 @@ cl_vcd::set_cmd(class cl_cmdline *cmdline, class cl_console_base *con)
           else
             {
               starttime += time;
-              event += time;
+              // event is relative to start time if not running
+              if (is_running())
+                event += time;
               //uc->sim->app->debug("vcd[%d]: event rescheduled to %.15f\n", cl_hw::id, event);
             }
           return true;
-- 
2.43.0


From 8f5223fb3bb6b9a3524564c9988ae19f338a374c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:39 +0000
Subject: [PATCH 084/106] fix: VCD input took words of comments as header end
 or changes

---
 src/core/sim.src/vcd.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/core/sim.src/vcd.cc b/src/core/sim.src/vcd.cc
index 43bf0c1..1a556fe 100644
--- a/src/core/sim.src/vcd.cc
+++ b/src/core/sim.src/vcd.cc
@@ -406,6 +406,8 @@ cl_vcd::parse_header(cl_console_base *con)
             state = 3;
           else if (!strcmp(token, "$var"))
              state = 4;
+          else if (token[0] == '$')
+             state = 8; // free text up to $end
         }
       else if (state == 2) // $timescale
         {
@@ -1044,11 +1046,16 @@ cl_vcd::tick(int cycles)
   while (more_data && event < now && ULPs(now, event) > 100000)
     {
       t_mem value = 0;
+      bool comment = false;
       while ((more_data = read_word(0U)))
         {
-          if (state == 0 && word[0] != '1' && word[0] != '0')
+          if (comment)
+            comment = (strcmp(word, "$end") != 0);
+          else if (state == 0 && word[0] != '1' && word[0] != '0')
             {
-              if (word[0] == '#')
+              if (!strcmp(word, "$comment"))
+                comment = true;
+              else if (word[0] == '#')
                 {
                   event = starttime + timescale * strtod(&word[1], NULL);
                   //uc->sim->app->debug("vcd[%d]: next event at %.15f\n", cl_hw::id, event);
-- 
2.43.0


From 650d8b856f895b29d1bfb3c30d43aa3db10dcb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:39 +0000
Subject: [PATCH 085/106] fix: VCD input mixed bits of the previous value into
 shorter vectors

---
 src/core/sim.src/vcd.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/sim.src/vcd.cc b/src/core/sim.src/vcd.cc
index 1a556fe..e330799 100644
--- a/src/core/sim.src/vcd.cc
+++ b/src/core/sim.src/vcd.cc
@@ -1066,7 +1066,8 @@ cl_vcd::tick(int cycles)
               else if (word[0] == 'b' || word[0] == 'B')
                 {
                   // Bit-vector value, next word is ID
-                  for (char *ptr = word; *ptr; ptr++)
+                  value = 0;
+                  for (char *ptr = &word[1]; *ptr; ptr++)
                     value = (value << 1) | (*ptr == '1' ? 1 : 0);
                   state = 1;
                 }
-- 
2.43.0


From 3eac6b4f9fa8a8c1a4c4db391f1f860a74bc8a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:39 +0000
Subject: [PATCH 086/106] fix: VCD input with identifier codes 0 and 1

---
 src/core/sim.src/vcd.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/sim.src/vcd.cc b/src/core/sim.src/vcd.cc
index e330799..2220daa 100644
--- a/src/core/sim.src/vcd.cc
+++ b/src/core/sim.src/vcd.cc
@@ -1082,18 +1082,18 @@ cl_vcd::tick(int cycles)
             {
               // ID for preceding value or bit followed by ID
               char id;
-              if (word[0] == '1')
+              if (state == 1)
+                id = word[0];
+              else if (word[0] == '1')
                 {
                   value = 1;
                   id = word[1];
                 }
-              else if (word[0] == '0')
+              else
                 {
                   value = 0;
                   id = word[1];
                 }
-              else
-                id = word[0];
 
               for (class cl_vcd_var *var = vars; var; var = var->next_var)
                 {
-- 
2.43.0


From 8c9d1c9706b1958ea0274a786309addca80178a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:39 +0000
Subject: [PATCH 087/106] fix: unknown bits of vectors in VCD input changed the
 location to zero

---
 src/core/sim.src/vcd.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/core/sim.src/vcd.cc b/src/core/sim.src/vcd.cc
index 2220daa..fad98dc 100644
--- a/src/core/sim.src/vcd.cc
+++ b/src/core/sim.src/vcd.cc
@@ -1045,7 +1045,7 @@ cl_vcd::tick(int cycles)
 
   while (more_data && event < now && ULPs(now, event) > 100000)
     {
-      t_mem value = 0;
+      t_mem value = 0, known = 1;
       bool comment = false;
       while ((more_data = read_word(0U)))
         {
@@ -1066,9 +1066,15 @@ cl_vcd::tick(int cycles)
               else if (word[0] == 'b' || word[0] == 'B')
                 {
                   // Bit-vector value, next word is ID
+                  // unknown bits do not change, missing ones at left are
+                  // zero or unknown as the first one
                   value = 0;
+                  known = (word[1] == '1' || word[1] == '0') ? ~(t_mem)0 : 0;
                   for (char *ptr = &word[1]; *ptr; ptr++)
-                    value = (value << 1) | (*ptr == '1' ? 1 : 0);
+                    {
+                      value = (value << 1) | (*ptr == '1' ? 1 : 0);
+                      known = (known << 1) | (*ptr == '1' || *ptr == '0' ? 1 : 0);
+                    }
                   state = 1;
                 }
               else if (word[0] == 'r' || word[0] == 'R')
@@ -1086,11 +1092,13 @@ cl_vcd::tick(int cycles)
                 id = word[0];
               else if (word[0] == '1')
                 {
+                  known = 1;
                   value = 1;
                   id = word[1];
                 }
               else
                 {
+                  known = 1;
                   value = 0;
                   id = word[1];
                 }
@@ -1103,7 +1111,8 @@ cl_vcd::tick(int cycles)
                       uc->ticks->set(ticks, event);
                       //uc->sim->app->debug("vcd[%d]: set '%c' to 0x%u at %.15f now %.15f isless %s ULPs %u\n",
                       //                    cl_hw::id, id, (value << var->bitnr_low) & var->bitmask, uc->ticks->get_rtime(), now, ULPs(now, event));
-                      var->cell->write((var->cell->get() & (~var->bitmask)) | ((value << var->bitnr_low) & var->bitmask));
+                      t_mem mask = (known << var->bitnr_low) & var->bitmask;
+                      var->cell->write((var->cell->get() & (~mask)) | ((value << var->bitnr_low) & mask));
                       uc->ticks->set(ticks, now);
                       event_occurred = true;
                       break;
-- 
2.43.0


From e53fb60775a178b63c89e8e9195a6dbe00d4f9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:58 +0000
Subject: [PATCH 088/106] fix: VCD input broke the clock counter after 2^31
 clocks

---
 src/core/sim.src/uccl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/sim.src/uccl.h b/src/core/sim.src/uccl.h
index a1b94f7..9bcc9ba 100644
--- a/src/core/sim.src/uccl.h
+++ b/src/core/sim.src/uccl.h
@@ -72,7 +72,7 @@ public:
   unsigned long get_ticks(void) { return ticks; }
   double get_rtime(void) { return rtime; }
 
-  void set(int nr, double time) { ticks = nr; rtime = time; }
+  void set(unsigned long nr, double time) { ticks = nr; rtime = time; }
 
   void tick(int nr, double time);
   void dump(int nr, class cl_console_base *con);
-- 
2.43.0


From c54b7600ddfe9de292ef567d60701f5a31a7b194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:04 +0000
Subject: [PATCH 089/106] fix: VCD input lost the top bit of variables which
 are whole cells

---
 src/core/sim.src/vcd.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/sim.src/vcd.cc b/src/core/sim.src/vcd.cc
index fad98dc..44cca26 100644
--- a/src/core/sim.src/vcd.cc
+++ b/src/core/sim.src/vcd.cc
@@ -455,6 +455,10 @@ cl_vcd::parse_header(cl_console_base *con)
 
           if (param->as_bit(uc))
             {
+              // whole cell has no bit number
+              if (param->value.bit.bitnr_low < 0)
+                param->value.bit.bitnr_low = 0;
+
               if (param->value.bit.mem->is_address_space())
                 add_var(con, id, ((cl_address_space *)param->value.bit.mem)->get_cell(param->value.bit.mem_address), param->value.bit.bitnr_low + width - 1, param->value.bit.bitnr_low);
               else
-- 
2.43.0


From 3c51bf4060c4ff7cf2e974d44640986794886fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:05 +0000
Subject: [PATCH 090/106] fix: byte in transfer survived the reset of the ACIA

---
 src/core/motorola.src/cia.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/motorola.src/cia.cc b/src/core/motorola.src/cia.cc
index 81d4823..122769a 100644
--- a/src/core/motorola.src/cia.cc
+++ b/src/core/motorola.src/cia.cc
@@ -392,6 +392,10 @@ cl_cia::received()
 void
 cl_cia::reset(void)
 {
+  // same as at start: a byte in transfer is lost
+  regs[cr]->write(0x15);
+  s_sending= false;
+  s_in= 0;
   show_writable(true);
   show_readable(false);
 }
-- 
2.43.0


From 1ce9dfaf4f858604c0a9997895a6abce74a235e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:05 +0000
Subject: [PATCH 091/106] fix: pending interrupts survived the reset of 68xx

---
 src/core/motorola.src/irq68.cc  | 8 ++++++++
 src/core/motorola.src/irq68cl.h | 1 +
 2 files changed, 9 insertions(+)

diff --git a/src/core/motorola.src/irq68.cc b/src/core/motorola.src/irq68.cc
index e04646e..04fcb2f 100644
--- a/src/core/motorola.src/irq68.cc
+++ b/src/core/motorola.src/irq68.cc
@@ -52,6 +52,14 @@ cl_irq_hw::init()
   return 0;
 }
 
+void
+cl_irq_hw::reset(void)
+{
+  cfg_set(m68_nmi, 0);
+  cfg_set(m68_irq, 0);
+  cfg_set(m68_swi, 0);
+}
+
 const char *
 cl_irq_hw::cfg_help(t_addr addr)
 {
diff --git a/src/core/motorola.src/irq68cl.h b/src/core/motorola.src/irq68cl.h
index b77d9f2..1bcfbb8 100644
--- a/src/core/motorola.src/irq68cl.h
+++ b/src/core/motorola.src/irq68cl.h
@@ -46,6 +46,7 @@ class cl_irq_hw: public cl_hw
  public:
   cl_irq_hw(class cl_uc *auc);
   virtual int init(void);
+  virtual void reset(void);
   virtual unsigned int cfg_size(void) { return m68_nr; }
   virtual const char *cfg_help(t_addr addr);
   virtual void print_info(class cl_console_base *con);  
-- 
2.43.0


From a7e2e7119f6a9f403c6fb8d35b5970d26aaf9922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:05 +0000
Subject: [PATCH 092/106] fix: M6800 in WAI stayed waiting after reset and had
 interrupts enabled

---
 src/core/motorola.src/m6800.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/motorola.src/m6800.cc b/src/core/motorola.src/m6800.cc
index 1dcd20e..082550c 100644
--- a/src/core/motorola.src/m6800.cc
+++ b/src/core/motorola.src/m6800.cc
@@ -135,7 +135,8 @@ cl_m6800::reset(void)
 {
   cl_uc::reset();
 
-  cCC.W(0xc0);
+  wai= false;
+  cCC.W(0xc0 | flagI);
   PC= read_addr(rom, RESET_AT);
   tick(6);
 }
-- 
2.43.0


From 4b5584cab6a9a2ab7bd3fe6408ba071a3cebc567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:05 +0000
Subject: [PATCH 093/106] fix: AVR reset left SREG, SP and sleep mode as they
 were

---
 src/sims/avr.src/avr.cc  | 10 ++++++++++
 src/sims/avr.src/avrcl.h |  1 +
 2 files changed, 11 insertions(+)

diff --git a/src/sims/avr.src/avr.cc b/src/sims/avr.src/avr.cc
index 64bd8a2..0f63d50 100644
--- a/src/sims/avr.src/avr.cc
+++ b/src/sims/avr.src/avr.cc
@@ -145,6 +145,16 @@ cl_avr::id_string(void)
   return("unspecified AVR");
 }
 
+void
+cl_avr::reset(void)
+{
+  cl_uc::reset();
+  sleep_executed= 0;
+  ram->write(SREG, 0);
+  ram->write(SPL, 0);
+  ram->write(SPH, 0);
+}
+
 
 /*
  * Making elements of the controller
diff --git a/src/sims/avr.src/avrcl.h b/src/sims/avr.src/avrcl.h
index f78f9b5..f0a11ca 100644
--- a/src/sims/avr.src/avrcl.h
+++ b/src/sims/avr.src/avrcl.h
@@ -47,6 +47,7 @@ public:
   cl_avr(class cl_sim *asim);
   virtual int init(void);
   virtual const char *id_string(void);
+  virtual void reset(void);
 
   virtual void mk_hw_elements(void);
   virtual void make_memories(void);
-- 
2.43.0


From 3a9415d958b0024704d38023ad3ef72d54574164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:05 +0000
Subject: [PATCH 094/106] fix: M6809 interrupt peripheral used old CC at reset

---
 src/sims/m6809.src/m6809.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index 98e41ba..1b90c15 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -83,12 +83,13 @@ cl_m6809::id_string(void)
 void
 cl_m6809::reset(void)
 {
-  cl_uc::reset();
-
   reg.DP= 0;
   en_nmi= false;
   cwai= false;
   reg.CC= flagI | flagF;
+  // irq peripheral reads the above
+  cl_uc::reset();
+
   PC= rom->read(0xfffe)*256 + rom->read(0xffff);
   tick(6);
 }
-- 
2.43.0


From e976886e905b677b25465299165d71279351f243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:05 +0000
Subject: [PATCH 095/106] fix: pending interrupts survived the reset of 65xx

---
 src/sims/mos6502.src/irq.cc  | 8 ++++++++
 src/sims/mos6502.src/irqcl.h | 1 +
 2 files changed, 9 insertions(+)

diff --git a/src/sims/mos6502.src/irq.cc b/src/sims/mos6502.src/irq.cc
index 81702c0..effc3c6 100644
--- a/src/sims/mos6502.src/irq.cc
+++ b/src/sims/mos6502.src/irq.cc
@@ -57,6 +57,14 @@ cl_irq_hw::init()
   return 0;
 }
 
+void
+cl_irq_hw::reset(void)
+{
+  cfg_set(m65_nmi, 0);
+  cfg_set(m65_irq, 0);
+  cfg_set(m65_brk, 0);
+}
+
 void
 cl_irq_hw::print_info(class cl_console_base *con)
 {
diff --git a/src/sims/mos6502.src/irqcl.h b/src/sims/mos6502.src/irqcl.h
index c712f89..d52c1e2 100644
--- a/src/sims/mos6502.src/irqcl.h
+++ b/src/sims/mos6502.src/irqcl.h
@@ -50,6 +50,7 @@ class cl_irq_hw: public cl_hw
  public:
   cl_irq_hw(class cl_uc *auc);
   virtual int init(void);
+  virtual void reset(void);
   virtual unsigned int cfg_size(void) { return m65_nr; }
   virtual void print_info(class cl_console_base *con);  
 };
-- 
2.43.0


From 50b35058a82ff5409e1fd2d4a7efd17d299c2377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:05 +0000
Subject: [PATCH 096/106] fix: Z80 reset left I and R as they were

---
 src/sims/z80.src/z80.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sims/z80.src/z80.cc b/src/sims/z80.src/z80.cc
index aa500ee..df9fc4f 100644
--- a/src/sims/z80.src/z80.cc
+++ b/src/sims/z80.src/z80.cc
@@ -111,6 +111,8 @@ cl_z80::reset(void)
   IFF1= false;
   IFF2= false;
   imode= 0;
+  regs.iv= 0;
+  regs.R= 0;
 }
 
 const char *
-- 
2.43.0


From 515b3e2c5a4956c0f636e96678696cd1337c04cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:10 +0000
Subject: [PATCH 097/106] fix: banked SFRs of F380 were not decoded until the
 first page switch

---
 src/sims/s51.src/uc380.cc | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/sims/s51.src/uc380.cc b/src/sims/s51.src/uc380.cc
index 5b0bccf..dfece70 100644
--- a/src/sims/s51.src/uc380.cc
+++ b/src/sims/s51.src/uc380.cc
@@ -94,70 +94,70 @@ cl_uc380::decode_sfr(void)
 		    sfr, 0xe4, 0xe4);
   ad->init();
   ad->set_name("sfr_banker_0xe4");
+  sfr->undecode_area(ad, 0xe4, 0xe4, NULL);
   ad->add_bank(0  , sfr_chip  , 0xe4-0x80);
   ad->add_bank(0xf, sfr_f_chip, 0xe4-0x80);
   sfr->decoders->add(ad);
-  sfr->undecode_area(ad, 0xe4, 0xe4, NULL);
   ad->activate(NULL);
   
   ad= new cl_banker(sfr, sfrpage, 0x0f,
 		    sfr, 0xc8, 0xc8);
   ad->init();
   ad->set_name("sfr_banker_0xc8");
+  sfr->undecode_area(ad, 0xc8, 0xc8, NULL);
   ad->add_bank(0  , sfr_chip  , 0xc8-0x80);
   ad->add_bank(0xf, sfr_f_chip, 0xc8-0x80);
   sfr->decoders->add(ad);
-  sfr->undecode_area(ad, 0xc8, 0xc8, NULL);
   ad->activate(NULL);
   
   ad= new cl_banker(sfr, sfrpage, 0x0f,
 		    sfr, 0xca, 0xcf);
   ad->init();
   ad->set_name("sfr_banker_0xca-0xcf");
+  sfr->undecode_area(ad, 0xca, 0xcf, NULL);
   ad->add_bank(0  , sfr_chip  , 0xca-0x80);
   ad->add_bank(0xf, sfr_f_chip, 0xca-0x80);
   sfr->decoders->add(ad);
-  sfr->undecode_area(ad, 0xca, 0xcf, NULL);
   ad->activate(NULL);
   
   ad= new cl_banker(sfr, sfrpage, 0x0f,
 		    sfr, 0xc0, 0xc2);
   ad->init();
   ad->set_name("sfr_banker_0xc0-0xc2");
+  sfr->undecode_area(ad, 0xc0, 0xc2, NULL);
   ad->add_bank(0  , sfr_chip  , 0xc0-0x80);
   ad->add_bank(0xf, sfr_f_chip, 0xc0-0x80);
   sfr->decoders->add(ad);
-  sfr->undecode_area(ad, 0xc0, 0xc2, NULL);
   ad->activate(NULL);
   
   ad= new cl_banker(sfr, sfrpage, 0x0f,
 		    sfr, 0xb9, 0xb9);
   ad->init();
   ad->set_name("sfr_banker_0xb9");
+  sfr->undecode_area(ad, 0xb9, 0xb9, NULL);
   ad->add_bank(0  , sfr_chip  , 0xb9-0x80);
   ad->add_bank(0xf, sfr_f_chip, 0xb9-0x80);
   sfr->decoders->add(ad);
-  sfr->undecode_area(ad, 0xb9, 0xb9, NULL);
   ad->activate(NULL);
   
   ad= new cl_banker(sfr, sfrpage, 0x0f,
 		    sfr, 0xbc, 0xbc);
   ad->init();
   ad->set_name("sfr_banker_0xbc");
+  sfr->undecode_area(ad, 0xbc, 0xbc, NULL);
   ad->add_bank(0  , sfr_chip  , 0xbc-0x80);
   ad->add_bank(0xf, sfr_f_chip, 0xbc-0x80);
   sfr->decoders->add(ad);
-  sfr->undecode_area(ad, 0xbc, 0xbc, NULL);
   ad->activate(NULL);
   
   ad= new cl_banker(sfr, sfrpage, 0x0f,
 		    sfr, 0x91, 0x95);
   ad->init();
   ad->set_name("sfr_banker_0x91-0x95");
+  sfr->undecode_area(ad, 0x91, 0x95, NULL);
   ad->add_bank(0  , sfr_chip  , 0x91-0x80);
   ad->add_bank(0xf, sfr_f_chip, 0x91-0x80);
   sfr->decoders->add(ad);
-  sfr->undecode_area(ad, 0x91, 0x95, NULL);
   ad->activate(NULL);
   
   ad->activate(NULL);
@@ -166,6 +166,7 @@ cl_uc380::decode_sfr(void)
 void
 cl_uc380::clear_sfr(void)
 {
+  sfr->write(/*SFRPAGE*/0xbf, 0);
   cl_uc52::clear_sfr();
 
   sfr->write(/*P4*/0xc7, 0xff);
-- 
2.43.0


From d1d9dad1e6b557ec889b827d524ba86a07a4a2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:52 +0000
Subject: [PATCH 098/106] fix: reset left the PCA running

---
 src/sims/s51.src/pca.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sims/s51.src/pca.cc b/src/sims/s51.src/pca.cc
index 04b11c4..3fa6c0c 100644
--- a/src/sims/s51.src/pca.cc
+++ b/src/sims/s51.src/pca.cc
@@ -41,8 +41,10 @@ cl_pca::cl_pca(class cl_uc *auc, int aid):
   cl_hw(auc, HW_PCA, aid, "pca")
 {
   t0_overflows= ECI_edge= 0;
+  clk_source= 0;
+  bit_CIDL= bit_WDTE= bit_ECF= bit_CR= false;
   int i;
-  for (i= 0; i < 5; cex_pos[i]= cex_neg[i]= false, i++) ;
+  for (i= 0; i < 5; ccapm[i]= 0, cex_pos[i]= cex_neg[i]= false, i++) ;
 }
 
 int
@@ -313,8 +315,10 @@ void
 cl_pca::reset(void)
 {
   t0_overflows= ECI_edge= 0;
+  clk_source= 0;
+  bit_CIDL= bit_WDTE= bit_ECF= bit_CR= false;
   int i;
-  for (i= 0; i < 5; cex_pos[i]= cex_neg[i]= false, i++) ;
+  for (i= 0; i < 5; ccapm[i]= 0, cex_pos[i]= cex_neg[i]= false, i++) ;
 }
 
 void
-- 
2.43.0


From 83002f26abb9a5fd6e078cb96e695e1313724ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:15 +0000
Subject: [PATCH 099/106] fix: reset with the second DPTR selected cleared that
 one and left it selected

---
 src/sims/s51.src/uc51.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/sims/s51.src/uc51.cc b/src/sims/s51.src/uc51.cc
index 0258a51..768d682 100644
--- a/src/sims/s51.src/uc51.cc
+++ b/src/sims/s51.src/uc51.cc
@@ -1568,8 +1568,22 @@ cl_51core::clear_sfr(void)
 {
   int i;
 
+  if (cpu)
+    {
+      // select the first DPTR
+      t_mem a= cpu->cfg_get(uc51cpu_aof_mdps);
+      if (a > 0x7f)
+	sfr->write(a, 0);
+      a= cpu->cfg_get(uc51cpu_aof_mdpc);
+      if (a > 0x7f)
+	sfr->write(a, 0);
+    }
   for (i= 0x80; i <= 0xff; i++)
     sfr->set(i, 0);
+  class cl_memory *dptr_chip= memory("dptr_chip");
+  if (dptr_chip)
+    for (i= 0; i < dptr_chip->get_size(); i++)
+      dptr_chip->set(i, 0);
   sfr->/*set*/write(P0, 0xff);
   sfr->/*set*/write(P1, 0xff);
   sfr->/*set*/write(P2, 0xff);
-- 
2.43.0


From dd29a69e33524d2ebaaddbdeb0cd1d81b0d2e21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:15 +0000
Subject: [PATCH 100/106] fix: reached end of a timed step was kept after other
 stops

---
 src/core/sim.src/sim.cc | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/core/sim.src/sim.cc b/src/core/sim.src/sim.cc
index 89455b4..8aa025b 100644
--- a/src/core/sim.src/sim.cc
+++ b/src/core/sim.src/sim.cc
@@ -136,17 +136,14 @@ cl_sim::step(void)
 	    stop(res);
 	}
       
-      if ((steps_todo > 0) &&
+      if ((res < resSTOP) &&
+	  (steps_todo > 0) &&
 	  (steps_done >= steps_todo))
 	stop(resSTEP);
       
-      if (uc->stop_at_time &&
+      else if (uc->stop_at_time &&
 	  uc->stop_at_time->reached())
-	{
-	  delete uc->stop_at_time;
-	  uc->stop_at_time= NULL;
-	  stop(resBREAKPOINT);
-	}
+	stop(resBREAKPOINT);
     }
   return(0);
 }
@@ -230,6 +227,12 @@ cl_sim::stop(int reason)
     con= cmd->frozen_or_actual();
 
   state&= ~(SIM_GO|SIM_EMU);
+  if (uc && uc->stop_at_time)
+    {
+      // it belongs to the run which is stopped now
+      delete uc->stop_at_time;
+      uc->stop_at_time= NULL;
+    }
   stop_at= dnow();
   if (simif)
     simif->cfg_set(simif_reason, reason);
-- 
2.43.0


From 922876e0954013200781fedd4e325f3334158385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:15 +0000
Subject: [PATCH 101/106] fix: step of zero duration never stopped

---
 src/core/sim.src/uc.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 8c40b5f..d198c9e 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -208,8 +208,7 @@ cl_time_measurer::from_now(unsigned long val)
 bool
 cl_time_measurer::reached()
 {
-  return to_reach &&
-    (now() >= to_reach);
+  return now() >= to_reach;
 }
 
 unsigned long
-- 
2.43.0


From 3ebdf87cc9e2e08f229d586e0ea65dcf0f7f3408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:15 +0000
Subject: [PATCH 102/106] fix: next stepped into subroutines on 8085, 68xx and
 6809

---
 src/core/motorola.src/g11p0.cc  |  2 +-
 src/core/motorola.src/g11p18.cc |  2 +-
 src/core/motorola.src/glob68.cc |  8 ++++----
 src/sims/i8085.src/glob.cc      | 26 +++++++++++++-------------
 src/sims/m6809.src/glob.cc      |  8 ++++----
 5 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/core/motorola.src/g11p0.cc b/src/core/motorola.src/g11p0.cc
index 1f467b2..5b9e1d6 100644
--- a/src/core/motorola.src/g11p0.cc
+++ b/src/core/motorola.src/g11p0.cc
@@ -47,7 +47,7 @@ struct dis_entry disass11p0[]= {
   { 0xa3, 0xff, ' ', 2, "SUB D,%X" },
   { 0xb3, 0xff, ' ', 3, "SUB D,%E" },
   { 0x8f, 0xff, ' ', 1, "XGDX" },
-  { 0x9d, 0xff, 'd', 2, "JSR %d" },
+  { 0x9d, 0xff, 'd', 2, "JSR %d", true },
   { 0xc3, 0xff, ' ', 3, "ADD D,%B" },
   { 0xd3, 0xff, ' ', 2, "ADD D,%D" },
   { 0xe3, 0xff, ' ', 2, "ADD D,%X" },
diff --git a/src/core/motorola.src/g11p18.cc b/src/core/motorola.src/g11p18.cc
index 624e315..0ccf632 100644
--- a/src/core/motorola.src/g11p18.cc
+++ b/src/core/motorola.src/g11p18.cc
@@ -67,7 +67,7 @@ struct dis_entry disass11p18[]= {
   { 0xaa, 0xff, ' ', 3, "ORA A,%x" },
   { 0xab, 0xff, ' ', 3, "ADD A,%x" },
   { 0xac, 0xff, ' ', 3, "CPY %X" },
-  { 0xad, 0xff, '_', 3, "JSR %X" },
+  { 0xad, 0xff, '_', 3, "JSR %X", true },
   { 0xae, 0xff, ' ', 3, "LDS %X" },
   { 0xaf, 0xff, ' ', 3, "STS %X" },
   { 0xbc, 0xff, ' ', 4, "CPY %E" },
diff --git a/src/core/motorola.src/glob68.cc b/src/core/motorola.src/glob68.cc
index 17fed6c..bd2e8fb 100644
--- a/src/core/motorola.src/glob68.cc
+++ b/src/core/motorola.src/glob68.cc
@@ -141,7 +141,7 @@ struct dis_entry disass_m6800[]=
     { 0x8a, 0xff, ' ', 2, "ORA A,%b" },
     { 0x8b, 0xff, ' ', 2, "ADD A,%b" },
     { 0x8c, 0xff, ' ', 3, "CPX %B" },
-    { 0x8d, 0xff, ' ', 2, "BSR %r" },
+    { 0x8d, 0xff, ' ', 2, "BSR %r", true },
     { 0x8e, 0xff, ' ', 3, "LDS %B" },
 
     { 0x90, 0xff, ' ', 2, "SUB A,%d" },
@@ -171,7 +171,7 @@ struct dis_entry disass_m6800[]=
     { 0xaa, 0xff, ' ', 2, "ORA A,%x" },
     { 0xab, 0xff, ' ', 2, "ADD A,%x" },
     { 0xac, 0xff, ' ', 2, "CPX %X" },
-    { 0xad, 0xff, '_', 2, "JSR %X" },
+    { 0xad, 0xff, '_', 2, "JSR %X", true },
     { 0xae, 0xff, ' ', 2, "LDS %X" },
     { 0xaf, 0xff, ' ', 2, "STS %X" },
 
@@ -187,7 +187,7 @@ struct dis_entry disass_m6800[]=
     { 0xba, 0xff, ' ', 3, "ORA A,%e" },
     { 0xbb, 0xff, ' ', 3, "ADD A,%e" },
     { 0xbc, 0xff, ' ', 3, "CPX %E" },
-    { 0xbd, 0xff, 'E', 3, "JSR %e" },
+    { 0xbd, 0xff, 'E', 3, "JSR %e", true },
     { 0xbe, 0xff, ' ', 3, "LDS %E" },
     { 0xbf, 0xff, ' ', 3, "STS %E" },
 
@@ -252,7 +252,7 @@ struct dis_entry disass_m6800[]=
 struct dis_entry disass_m6801[]=
   {
     { 0x21, 0xff, ' ', 2, "BRN %r" },
-    { 0x9d, 0xff, 'd', 2, "JSR %d" },
+    { 0x9d, 0xff, 'd', 2, "JSR %d", true },
     { 0x3c, 0xff, ' ', 1, "PSHX" },
     { 0x38, 0xff, ' ', 1, "PULX" },
 
diff --git a/src/sims/i8085.src/glob.cc b/src/sims/i8085.src/glob.cc
index 4ff1fb2..3f576c8 100644
--- a/src/sims/i8085.src/glob.cc
+++ b/src/sims/i8085.src/glob.cc
@@ -98,15 +98,15 @@ struct dis_entry disass_common[]=
     { 0xf2, 0xff, ' ', 3, "JP 'a16'" },
     { 0xfa, 0xff, ' ', 3, "JM 'a16'" },
     
-    { 0xcd, 0xff, ' ', 3, "CALL 'a16'" },
-    { 0xc4, 0xff, ' ', 3, "CNZ 'a16'" },
-    { 0xcc, 0xff, ' ', 3, "CZ 'a16'" },
-    { 0xd4, 0xff, ' ', 3, "CNC 'a16'" },
-    { 0xdc, 0xff, ' ', 3, "CC 'a16'" },
-    { 0xe4, 0xff, ' ', 3, "CPO 'a16'" },
-    { 0xec, 0xff, ' ', 3, "CPE 'a16'" },
-    { 0xf4, 0xff, ' ', 3, "CP 'a16'" },
-    { 0xfc, 0xff, ' ', 3, "CM 'a16'" },
+    { 0xcd, 0xff, ' ', 3, "CALL 'a16'", true },
+    { 0xc4, 0xff, ' ', 3, "CNZ 'a16'", true },
+    { 0xcc, 0xff, ' ', 3, "CZ 'a16'", true },
+    { 0xd4, 0xff, ' ', 3, "CNC 'a16'", true },
+    { 0xdc, 0xff, ' ', 3, "CC 'a16'", true },
+    { 0xe4, 0xff, ' ', 3, "CPO 'a16'", true },
+    { 0xec, 0xff, ' ', 3, "CPE 'a16'", true },
+    { 0xf4, 0xff, ' ', 3, "CP 'a16'", true },
+    { 0xfc, 0xff, ' ', 3, "CM 'a16'", true },
     
     { 0xc9, 0xff, ' ', 1, "RET" },
     { 0xc0, 0xff, ' ', 1, "RNZ" },
@@ -118,7 +118,7 @@ struct dis_entry disass_common[]=
     { 0xf0, 0xff, ' ', 1, "RP" },
     { 0xf8, 0xff, ' ', 1, "RM" },
 
-    { 0xc7, 0xc7, ' ', 1, "RST 'rst'" },
+    { 0xc7, 0xc7, ' ', 1, "RST 'rst'", true },
     { 0xe9, 0xff, ' ', 1, "PCHL" },
 
     { 0, 0, 0, 0, 0, 0 }
@@ -135,9 +135,9 @@ struct dis_entry disass_8080[]=
     { 0x38, 0xff, ' ', 1, "*NOP" },
     { 0xd9, 0xff, ' ', 1, "*RET" },
     { 0xcb, 0xff, ' ', 3, "*JMP 'a16'" },
-    { 0xdd, 0xff, ' ', 3, "*CALL 'a16'" },
-    { 0xed, 0xff, ' ', 3, "*CALL 'a16'" },
-    { 0xfd, 0xff, ' ', 3, "*CALL 'a16'" },
+    { 0xdd, 0xff, ' ', 3, "*CALL 'a16'", true },
+    { 0xed, 0xff, ' ', 3, "*CALL 'a16'", true },
+    { 0xfd, 0xff, ' ', 3, "*CALL 'a16'", true },
     { 0, 0, 0, 0, 0, 0 }
   };
 
diff --git a/src/sims/m6809.src/glob.cc b/src/sims/m6809.src/glob.cc
index abb452e..481973f 100644
--- a/src/sims/m6809.src/glob.cc
+++ b/src/sims/m6809.src/glob.cc
@@ -78,12 +78,12 @@ struct dis_entry disass_m6809[]=
    { 0x2e, 0xff, 'b', 1, "BGT %b"	, 0, 0 },
    { 0x2f, 0xff, 'b', 1, "BLE %b"	, 0, 0 },
 
-   { 0x8d, 0xff, 's', 1, "BSR %b"	, 0, 0 },
-   { 0xbd, 0xff, 's', 1, "JSR %j"	, 0, 0 },
-   { 0x8d, 0xcf, 's', 1, "JSR %b"	, 0, 0 },
+   { 0x8d, 0xff, 's', 1, "BSR %b"	, true, 0 },
+   { 0xbd, 0xff, 's', 1, "JSR %j"	, true, 0 },
+   { 0x8d, 0xcf, 's', 1, "JSR %b"	, true, 0 },
    
    { 0x16, 0xff, ' ', 1, "LBRA %B"	, 0, 0 },
-   { 0x17, 0xff, ' ', 1, "LBSR %B"	, 0, 0 },
+   { 0x17, 0xff, ' ', 1, "LBSR %B"	, true, 0 },
 
    { 0x30, 0xff, ' ', 1, "LEAX %X"	, 0, 0 },
    { 0x31, 0xff, ' ', 1, "LEAY %X"	, 0, 0 },
-- 
2.43.0


From b804f0d419864af3bb4c19bf509e72e14e00e8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:23 +0000
Subject: [PATCH 103/106] fix: STM8 timer reset kept the buffered MS byte of
 the prescaler

---
 src/sims/stm8.src/timer.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sims/stm8.src/timer.cc b/src/sims/stm8.src/timer.cc
index 55c1b41..79dcd68 100644
--- a/src/sims/stm8.src/timer.cc
+++ b/src/sims/stm8.src/timer.cc
@@ -159,6 +159,9 @@ cl_tim::reset(void)
   cnt= 0;
   prescaler_cnt= 0;
   prescaler_preload= 0;
+  prescaler_ms_buffer= 0;
+  arr_ms_buffer= 0xff;
+  timer_ls_buffer= 0;
 
   for (i= 0; i<32+6; i++)
     regs[i]->set(0);
-- 
2.43.0


From a141c371147a79541836a84e414f44d859e2f8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:55 +0000
Subject: [PATCH 104/106] fix: range of timer values given in seconds

---
 src/core/cmd.src/cmd_timer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/cmd.src/cmd_timer.cc b/src/core/cmd.src/cmd_timer.cc
index 5d7c20e..2e1c7f6 100644
--- a/src/core/cmd.src/cmd_timer.cc
+++ b/src/core/cmd.src/cmd_timer.cc
@@ -339,7 +339,7 @@ COMMAND_DO_WORK_UC(cl_timer_value_cmd)
           if (units[0] != '\0' && units[0] != 's')
             con->dd_printf("Expected units to be in seconds not \"%s\"\n", cmdline->param(1)->value.string.string);
           else
-            ticker->set((int)(time / uc->get_xtal_tick()), time);
+            ticker->set((long)(time / uc->get_xtal_tick()), time);
         }
       else if (cmdline->syntax_match(uc, NUMBER NUMBER STRING))
         {
-- 
2.43.0


From 0f8913992d3654cf552bec848ea5d223be81e178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:55 +0000
Subject: [PATCH 105/106] fix: seconds of a new timer were not initialized

---
 src/core/sim.src/uc.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index d198c9e..a64c27a 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -73,6 +73,7 @@ cl_ticker::cl_ticker(int adir, enum ticker_type atype, const char *aname, bool a
   dir= adir;
   type= atype;
   ticks= 0;
+  rtime= 0;
   run = true;
   set_name(aname);
   user= auser;
-- 
2.43.0


From 7b7d4b7738b795050433fe50f5e6876ca6aa0200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:55 +0000
Subject: [PATCH 106/106] fix: clock stood still while a 6800, HC11 or 6809
 waits for an interrupt

---
 src/core/sim.src/uc.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index a64c27a..eb7ad53 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -3264,6 +3264,12 @@ cl_uc::do_inst(void)
 	/* backup to start of instruction */
 	PC= instPC;
     }
+  else
+    {
+      // time goes on while the CPU waits
+      inst_ticks= 0;
+      tick(1);
+    }
   post_inst();
 
   if ((res == resGO) && (PC == instPC) && stop_selfjump && !repeating)
@@ -3296,6 +3302,11 @@ cl_uc::do_emu(void)
 	/* backup to start of instruction */
 	PC= instPC;
     }
+  else
+    {
+      inst_ticks= 0;
+      tick(1);
+    }
   post_emu();
 
   if ((res == resGO || res == resNOT_DONE))
-- 
2.43.0

