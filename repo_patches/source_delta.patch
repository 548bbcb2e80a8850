From da797ac0836b29f2f3cdab52d7962ebce0513503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:43:15 +0000
Subject: [PATCH 01/83] fix: end IF and REPEAT blocks left open by a macro
 together with it

MEXIT inside an IF left the entry for that IF on the stack, pointing to the
freed macro frame.  Everything after the macro call was then controlled by a
stale condition.
---
 src/ops.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ops.c b/src/ops.c
index 3321bb2..0dfc4bc 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1380,6 +1380,13 @@ v_endm(char *str, MNEMONIC *dummy)
     /* programlabel(); contrary to documentation */
     if (inc->flags & INF_MACRO) {
         --Mlevel;
+
+        /* IFs and REPEATs opened in this macro call end with it */
+        while (Reploop && Reploop->file == inc)
+            rmnode((void **)&Reploop, sizeof(REPLOOP));
+        while (Ifstack->file == inc)
+            rmnode((void **)&Ifstack, sizeof(IFSTACK));
+
         for (args = inc->args; args; args = an) {
             an = args->next;
             free(args);
-- 
2.43.0


From bd1c38a197d36507ce14e673a75c007777ff789e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:43:28 +0000
Subject: [PATCH 02/83] fix: take another pass when a REPEAT count is not known
 yet

A REPEAT whose count was an undefined symbol was silently skipped, and the
assembly could succeed without ever resolving it.
---
 src/ops.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ops.c b/src/ops.c
index 0dfc4bc..6e4e8b4 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1496,6 +1496,10 @@ void v_repeat(char *str, MNEMONIC *dummy)
     programlabel();
     sym = eval(str, 0);
     if (sym->value == 0) {
+        if (sym->flags & SYM_UNKNOWN) {
+            ++Redo;
+            Redo_why |= REASON_REPEAT_NOT_RESOLVED;
+        }
         pushif(0);
         FreeSymbolList(sym);
         return;
-- 
2.43.0


From fe5d34d6732bb2204702ada63b3edd20fb1a4c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:43:29 +0000
Subject: [PATCH 03/83] fix: never write bytes at an unknown origin

Only the first byte of the output was checked for a known origin.  Code in a
later segment without an ORG, or after an ORG that was not resolved, was
written wherever the stale origin of the segment pointed.
---
 src/ops.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index 6e4e8b4..8ed8d15 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1659,19 +1659,19 @@ generate(void)
     {
         if (!(Csegment->flags & SF_BSS))
         {
+            if (Csegment->flags & SF_UNKNOWN)
+            {
+                ++Redo;
+                Redo_why |= REASON_OBSCURE;
+                return;
+            }
+
             for (i = Glen - 1; i >= 0; --i)
                 CheckSum += Gen[i];
 
             if (Fisclear)
             {
                 Fisclear = 0;
-                if (Csegment->flags & SF_UNKNOWN)
-                {
-                    ++Redo;
-                    Redo_why |= REASON_OBSCURE;
-                    return;
-                }
-
                 org = Csegment->org;
 
                 if ( F_format < FORMAT_RAW )
-- 
2.43.0


From 81c700577913a12167ba74d021c7f3b1fa8f1c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:44:00 +0000
Subject: [PATCH 04/83] fix: take another pass for a branch at an unknown
 program counter

The branch was written with displacement 0 on the assumption that another
pass would follow, but nothing asked for one.
---
 src/ops.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ops.c b/src/ops.c
index 8ed8d15..6d111fc 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -489,6 +489,8 @@ void v_mnemonic(char *str, MNEMONIC *mne)
             else
             {
                 /* Don't bother - we'll take another pass */
+                ++Redo;
+                Redo_why |= REASON_MNEMONIC_NOT_RESOLVED;
                 dest = 0;
             }
             Gen[opidx-1] = dest & 0xFF;     /*	byte before end of inst.    */
-- 
2.43.0


From f7745f30bf64d95ef032d003a70e58df4b4b8427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:44:01 +0000
Subject: [PATCH 05/83] fix: reject F8 branches that are out of range

An F8 branch out of range (or at an unknown program counter) was assembled
with a truncated displacement and the assembly succeeded, because the error
is not fatal by itself and no other pass was requested.
---
 src/mnef8.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mnef8.c b/src/mnef8.c
index 5e9ae0b..279b29f 100644
--- a/src/mnef8.c
+++ b/src/mnef8.c
@@ -544,9 +544,14 @@ static void generate_branch(unsigned char opcode, char *str) {
                 char buf[64];
                 sprintf(buf, "%d", (int)disp);
                 asmerr(ERROR_BRANCH_OUT_OF_RANGE, false, buf);
+                ++Redo;
+                Redo_why |= REASON_BRANCH_OUT_OF_RANGE;
+                disp = 0;
         }
     } else {
         /* unknown pc, will be (hopefully) resolved in future passes */
+        ++Redo;
+        Redo_why |= REASON_MNEMONIC_NOT_RESOLVED;
         disp = 0;
     }
 
-- 
2.43.0


From 8b2cee5c72bc19822034994179f798f00a352304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:44:02 +0000
Subject: [PATCH 06/83] fix: F8 label on BF/BT and register with unresolved
 operand

A label in front of BF or BT was not defined in passes where the condition
was unresolved, and the opcode with an unresolved scratchpad register was
built from an uninitialised variable.
---
 src/mnef8.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mnef8.c b/src/mnef8.c
index 279b29f..8815170 100644
--- a/src/mnef8.c
+++ b/src/mnef8.c
@@ -369,7 +369,7 @@ static void v_lisu_lisl(char *str, MNEMONIC *mne) {
  */
 static void v_sreg_op(char *str, MNEMONIC *mne) {
 
-    unsigned char reg;
+    unsigned char reg = 0;
 
     programlabel();
     parse_scratchpad_register(str, &reg);
@@ -599,6 +599,7 @@ static void v_bf_bt(char *str, MNEMONIC *mne) {
     /* parse first operand*/
     if (parse_value(op1, &value)) {
         /* unresolved expression, reserve space */
+        programlabel();
         emit_opcode2(0, 0);
         return;
     }
-- 
2.43.0


From c1251e4273e8546b771eb079f9f9cba603937c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:44:14 +0000
Subject: [PATCH 07/83] fix: start every pass in the initial segment

Code in front of the first SEG belonged to the initial segment in the first
pass, but to whichever segment was used last in every following pass.
---
 src/main.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.c b/src/main.c
index b42be44..e7ba49a 100644
--- a/src/main.c
+++ b/src/main.c
@@ -937,6 +937,7 @@ void clearsegs(void)
     for (seg = Seglist; seg; seg = seg->next) {
         seg->flags = (seg->flags & SF_BSS) | SF_UNKNOWN;
         seg->rflags= seg->initflags = seg->initrflags = SF_UNKNOWN;
+        Csegment = seg;         /* the initial segment is last in the list */
     }
 }
 
-- 
2.43.0


From 0439cd97cc0c9eb442be6076c8daf621b42a7f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:44:35 +0000
Subject: [PATCH 08/83] fix: reset the ORG fill byte and the list mode in every
 pass

The fill byte given with an ORG late in the source, and LIST OFF, stayed in
effect at the beginning of the next pass.
---
 src/asm.h  | 1 +
 src/main.c | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/asm.h b/src/asm.h
index 1d58a8f..14707fa 100644
--- a/src/asm.h
+++ b/src/asm.h
@@ -431,6 +431,7 @@ void    programlabel();
 
 /* ops.c */
 extern    unsigned char Gen[];
+extern    unsigned char OrgFill;
 extern    int Glen;
 void    v_set(char *str, MNEMONIC *);
 void    v_setstr(char *str, MNEMONIC *);
diff --git a/src/main.c b/src/main.c
index e7ba49a..9977a66 100644
--- a/src/main.c
+++ b/src/main.c
@@ -618,6 +618,8 @@ nextpass:
     /*_fmode = 0;*/
     Fisclear = 1;
     CheckSum = 0;
+    OrgFill = DEFORGFILL;
+    ListMode = 1;
     if (FI_temp == NULL) {
         printf("Warning: Unable to [re]open '%s'\n", F_outfile);
         return ERROR_FILE_ERROR;
-- 
2.43.0


From d7cff0a4bb39f25168cc33cb1f43c8f1c7b15da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:44:57 +0000
Subject: [PATCH 09/83] fix: build the whole dynamic symbol name on the right
 side of SET

The name was cut at the length of the source text instead of the length of
the name built from it, so arguments that evaluate to more digits than their
own spelling lost characters.  The name is now also allocated as large as it
can get.
---
 src/ops.c | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index 6d111fc..29617e4 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1185,7 +1185,7 @@ void v_set(char *str, MNEMONIC *dummy)
 {
 
     SYMBOL *sym, *lab;
-    char dynamicname[257];
+    char *dynamicname = NULL;
     int i = 0,j;
     int setundefined = 0;
 
@@ -1194,11 +1194,10 @@ void v_set(char *str, MNEMONIC *dummy)
 
     if(str[i] && str[i] == ',') // is this SET is using the "," eval-concat operator?
     {
-        strncpy(dynamicname, str,256);
-        if(i<256)
-            dynamicname[i]=0;
-        dynamicname[256]=0;
-        j=strlen(dynamicname);
+        // a one character argument can expand to 11 characters, plus sign
+        dynamicname = ckmalloc(strlen(str)*12+1);
+        memcpy(dynamicname,str,i);
+        j=i;
 
         // eval-concat argument processing loop...
         while (str[i] && str[i] != '"' && str[i] != ' ')
@@ -1216,7 +1215,6 @@ void v_set(char *str, MNEMONIC *dummy)
                 }
                 if (str[i] && str[i]=='"')
                 {
-                    dynamicname[j]=0;
                     i++;
                     continue;
                 }
@@ -1229,27 +1227,25 @@ void v_set(char *str, MNEMONIC *dummy)
             else // this argument is a symbol to be evaluated
             {
                 int t;
-                char tempbuf[257];
-                char tempval[257];
+                char *tempbuf = strcpy(ckmalloc(strlen(str+i+1)+1),str+i+1);
                 SYMBOL *symarg;
-                strncpy(tempbuf,str+i+1,256);
-                tempbuf[256]=0;
-                for(t=0;t<strlen(tempbuf);t++)
+                for(t=0;tempbuf[t];t++)
                 {
                     if(tempbuf[t] == ',')
+                    {
                         tempbuf[t]=0;
+                        break;
+                    }
                 }
                 symarg = eval(tempbuf,0);
+                free(tempbuf);
                 if(symarg)
                 {
                     if (symarg->flags & SYM_UNKNOWN) // one of the arguments isn't defined yet
                         setundefined++; // ensure the set doesn't actually happen
                     else
-                    {
-                        snprintf(tempval,256,"%d",(unsigned)symarg->value);
-                        strcpy(dynamicname+j,tempval);
-                        j=j+strlen(tempval);
-                    }
+                        j=j+sprintf(dynamicname+j,"%d",(unsigned)symarg->value);
+                    FreeSymbolList(symarg);
                 }
                 i++;
                 while (str[i] && str[i] != ' ' && str[i] != ',')
@@ -1258,12 +1254,14 @@ void v_set(char *str, MNEMONIC *dummy)
 
             continue; // process any remaining arguments
         }
-        dynamicname[i++] = 0;
+        dynamicname[j] = 0;
         if (setundefined) // not all of the arguments are defined yet, so skip this SET
         {
+            free(dynamicname);
             return;
         }
         sym = eval(dynamicname,0);
+        free(dynamicname);
     }
     else // traditional SET behavior
         sym = eval(str, 0);
-- 
2.43.0


From 47e267ea70353ebcb07db363458dce839e5cd4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:44:58 +0000
Subject: [PATCH 10/83] fix: SETSYM of a number and SETSTR/SETSYM of long
 strings

SETSYM of something that is not a string evaluated an uninitialised buffer;
it is now a type mismatch.  Both directives copied strings of any length into
buffers of fixed size.
---
 src/ops.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index 29617e4..c36afd6 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1278,14 +1278,15 @@ void v_set(char *str, MNEMONIC *dummy)
 
 void v_setstr(char *symstr, MNEMONIC *dummy)
 {
-    char str[1024];
-    snprintf(str,1024,"\"%s\"",symstr);
+    char *str = ckmalloc(strlen(symstr)+3);
+    sprintf(str,"\"%s\"",symstr);
     v_set(str,dummy);
+    free(str);
 }
 
 void v_setsym(char *symstr, MNEMONIC *dummy)
 {
-    char str[1024];
+    char *str;
     SYMBOL *sym;
     sym = eval(symstr,0);
     if (sym->flags & SYM_UNKNOWN)
@@ -1294,12 +1295,18 @@ void v_setsym(char *symstr, MNEMONIC *dummy)
         return;
     }
 
-    if (sym->flags & SYM_STRING)
-        strcpy(str,sym->string);
+    if (!(sym->flags & SYM_STRING))
+    {
+        asmerr( ERROR_TYPE_MISMATCH, false, NULL );
+        FreeSymbolList(sym);
+        return;
+    }
 
+    str = strcpy(ckmalloc(strlen(sym->string)+1),sym->string);
     FreeSymbolList(sym);
 
     v_set(str,dummy);
+    free(str);
 }
 
 void
-- 
2.43.0


From d4966f939f280b16b3751373da99bb088c900538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:44:59 +0000
Subject: [PATCH 11/83] fix: report ALIGN 0 instead of crashing with a division
 by zero

---
 src/ops.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ops.c b/src/ops.c
index c36afd6..a3ed72f 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1021,6 +1021,8 @@ v_align(char *str, MNEMONIC *dummy)
             fill = sym->next->value;
         }
     }
+    if (!(sym->flags & SYM_UNKNOWN) && sym->value == 0)
+        asmerr( ERROR_DIVISION_BY_0, true, NULL );
     if (rorg) {
         if ((Csegment->rflags | sym->flags) & SYM_UNKNOWN) {
             ++Redo;
-- 
2.43.0


From b8e8a019d89ceee85b572b297b11d9e888f45dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:45:16 +0000
Subject: [PATCH 12/83] fix: dividing the smallest number by -1 crashed the
 assembler

---
 src/exp.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/exp.c b/src/exp.c
index 8e818e6..b53f0f0 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -786,7 +786,8 @@ void op_div(long v1, long v2, int f1, int f2)
     }
     else
     {
-        stackarg(v1 / v2, 0, NULL);
+        /* dividing by -1 can overflow, which traps on some machines */
+        stackarg((v2 == -1) ? (long)(0UL - (unsigned long)v1) : v1 / v2, 0, NULL);
     }
 }
 
@@ -799,7 +800,7 @@ void op_mod(long v1, long v2, int f1, int f2)
     if (v2 == 0)
         stackarg(v1, 0, NULL);
     else
-        stackarg(v1 % v2, 0, NULL);
+        stackarg((v2 == -1) ? 0L : v1 % v2, 0, NULL);
     Lastwasop = 1;
 }
 
-- 
2.43.0


From ef78bef3c8e9dc4b0f43e69cd2efe0842d353e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:45:17 +0000
Subject: [PATCH 13/83] fix: define the result of overflowing arithmetic and
 large shift counts

Sums, products, negation and constants that overflow wrap around, without
relying on undefined behaviour.  Shifting by a negative count or by at least
the width of a value shifts all bits out; it used to depend on the machine.
---
 src/exp.c | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/exp.c b/src/exp.c
index b53f0f0..29646ce 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -679,7 +679,7 @@ static void stackarg(long val, int flags, const char *ptr1)
         val = len = 0;
         while (*ptr && *ptr != '\"')
         {
-            val = (val << 8) | *ptr;
+            val = (long)((unsigned long)val << 8) | *ptr;
             ++ptr;
             ++len;
         }
@@ -753,7 +753,7 @@ void op_takemsb(long v1, int f1)
 
 void op_negate(long v1, int f1)
 {
-    stackarg(-v1, f1, NULL);
+    stackarg((long)(0UL - (unsigned long)v1), f1, NULL);
 }
 
 void op_invert(long v1, int f1)
@@ -768,7 +768,7 @@ void op_not(long v1, int f1)
 
 void op_mult(long v1, long v2, int f1, int f2)
 {
-    stackarg(v1 * v2, f1|f2, NULL);
+    stackarg((long)((unsigned long)v1 * (unsigned long)v2), f1|f2, NULL);
     Lastwasop = 1;
 }
 
@@ -814,20 +814,25 @@ void op_question(long v1, long v2, int f1, int f2)
 
 void op_add(long v1, long v2, int f1, int f2)
 {
-    stackarg(v1 + v2, f1|f2, NULL);
+    stackarg((long)((unsigned long)v1 + (unsigned long)v2), f1|f2, NULL);
     Lastwasop = 1;
 }
 
 void op_sub(long v1, long v2, int f1, int f2)
 {
-    stackarg(v1 - v2, f1|f2, NULL);
+    stackarg((long)((unsigned long)v1 - (unsigned long)v2), f1|f2, NULL);
     Lastwasop = 1;
 }
 
+/* number of bits in a value */
+#define VALUEBITS   ((long)(sizeof(long) * 8))
+
 void op_shiftright(long v1, long v2, int f1, int f2)
 {
     if (f1|f2)
         stackarg(0L, f1|f2, NULL);
+    else if (v2 < 0 || v2 >= VALUEBITS)
+        stackarg((v1 < 0) ? -1L : 0L, 0, NULL);
     else
         stackarg((long)(v1 >> v2), 0, NULL);
 }
@@ -836,8 +841,10 @@ void op_shiftleft(long v1, long v2, int f1, int f2)
 {
     if (f1|f2)
         stackarg(0L, f1|f2, NULL);
+    else if (v2 < 0 || v2 >= VALUEBITS)
+        stackarg(0L, 0, NULL);
     else
-        stackarg((long)(v1 << v2), 0, NULL);
+        stackarg((long)((unsigned long)v1 << v2), 0, NULL);
 }
 
 void op_greater(long v1, long v2, int f1, int f2)
@@ -916,7 +923,7 @@ const char *pushchar(const char *str)
 
 const char *pushhex(const char *str)
 {
-    long val = 0;
+    unsigned long val = 0;
     for (;; ++str) {
         if (*str >= '0' && *str <= '9') {
             val = (val << 4) + (*str - '0');
@@ -934,7 +941,7 @@ const char *pushhex(const char *str)
 
 const char *pushoct(const char *str)
 {
-    long val = 0;
+    unsigned long val = 0;
     while (*str >= '0' && *str <= '7') {
         val = (val << 3) + (*str - '0');
         ++str;
@@ -945,7 +952,7 @@ const char *pushoct(const char *str)
 
 const char *pushdec(const char *str)
 {
-    long val = 0;
+    unsigned long val = 0;
     while (*str >= '0' && *str <= '9') {
         val = (val * 10) + (*str - '0');
         ++str;
@@ -956,7 +963,7 @@ const char *pushdec(const char *str)
 
 const char *pushbin(const char *str)
 {
-    long val = 0;
+    unsigned long val = 0;
     while (*str == '0' || *str == '1') {
         val = (val << 1) | (*str - '0');
         ++str;
-- 
2.43.0


From 9f36ba7bcf2ead38de17666864f50a260db0f037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:45:42 +0000
Subject: [PATCH 14/83] fix: out of bounds access to the per pass error flags

The flags were indexed with the pass number in an array sized by -p, which
was too small for -p0 and did not exist yet while options were parsed.  Only
the flag of the current pass is ever used, so keep just that one.
---
 src/main.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/main.c b/src/main.c
index 9977a66..7b5f5bb 100644
--- a/src/main.c
+++ b/src/main.c
@@ -126,7 +126,7 @@ ERROR_DEFINITION sErrorDef[] = {
 
 #define MAX_ERROR (( sizeof( sErrorDef ) / sizeof( ERROR_DEFINITION )))
 
-bool *bStopAtEnd;
+bool bStopAtEnd = false;     /* fatal error in the current pass */
 bool bRemoveOutBin  = false;
 
 int nMaxPasses = 10;
@@ -573,9 +573,6 @@ nofile:
         goto fail;
     }
 
-    bStopAtEnd = malloc((nMaxPasses+1) * sizeof(bool));
-    memset(bStopAtEnd, 0, nMaxPasses+1);	// we dont count from zero ! (for fewer code changes)
-
     /*    INITIAL SEGMENT */
 
     {
@@ -746,6 +743,7 @@ nextpass:
 
         Redo_if <<= 1;
         ++pass;
+        bStopAtEnd = false;
 
 
         if ( pass > nMaxPasses )
@@ -767,7 +765,7 @@ nextpass:
     }
     // Do not print any errors if assembly is successful!!!!! -FXQ
     // only print messages from last pass and if there's no errors
-    if (!bStopAtEnd[pass])
+    if (!bStopAtEnd)
     {
         passbuffer_output(MSGBUF);
     }
@@ -1599,7 +1597,7 @@ int asmerr(int err, bool bAbort, const char *sText )
     {
 
         if (sErrorDef[err].bFatal)
-            bStopAtEnd[pass] = true;
+            bStopAtEnd = true;
 
 	pincfile = pIncfile;
 	while(1) {
-- 
2.43.0


From e5773bc45d1d70cf31ac78debcc255ebfcfcf8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:45:43 +0000
Subject: [PATCH 15/83] fix: set up the initial segment before parsing options

-D and -M evaluate expressions, which crashed when they referred to the
program counter.
---
 src/main.c | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/main.c b/src/main.c
index 7b5f5bb..440f535 100644
--- a/src/main.c
+++ b/src/main.c
@@ -454,6 +454,24 @@ fail:
     return ERROR_COMMAND_LINE;
     }
 
+    /*    INITIAL SEGMENT */
+
+    {
+        SEGMENT *seg = (SEGMENT *)permalloc(sizeof(SEGMENT));
+        seg->name = strcpy(permalloc(sizeof(ISEGNAME)), ISEGNAME);
+        seg->flags= seg->rflags = seg->initflags = seg->initrflags = SF_UNKNOWN;
+        Csegment = Seglist = seg;
+    }
+    /*    TOP LEVEL IF    */
+    {
+        IFSTACK *ifs = (IFSTACK *)zmalloc(sizeof(IFSTACK));
+        ifs->file = NULL;
+        ifs->flags = IFF_BASE;
+        ifs->acctrue = 1;
+        ifs->xtrue  = 1;
+        Ifstack = ifs;
+    }
+
     for (i = 2; i < ac; ++i)
     {
         if ( ( av[i][0] == '-' ) || ( av[i][0] == '/' ) )
@@ -573,24 +591,6 @@ nofile:
         goto fail;
     }
 
-    /*    INITIAL SEGMENT */
-
-    {
-        SEGMENT *seg = (SEGMENT *)permalloc(sizeof(SEGMENT));
-        seg->name = strcpy(permalloc(sizeof(ISEGNAME)), ISEGNAME);
-        seg->flags= seg->rflags = seg->initflags = seg->initrflags = SF_UNKNOWN;
-        Csegment = Seglist = seg;
-    }
-    /*    TOP LEVEL IF    */
-    {
-        IFSTACK *ifs = (IFSTACK *)zmalloc(sizeof(IFSTACK));
-        ifs->file = NULL;
-        ifs->flags = IFF_BASE;
-        ifs->acctrue = 1;
-        ifs->xtrue  = 1;
-        Ifstack = ifs;
-    }
-
     // ready error and message buffer...
     passbuffer_clear(ERRORBUF);
     passbuffer_clear(MSGBUF);
-- 
2.43.0


From cfa14c04cec977b70c94bed91b0d41997fcd2819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:45:44 +0000
Subject: [PATCH 16/83] fix: do not write errors to a list file that is not
 open

Errors in -D/-M options, too many passes and missing ENDMs were written to
the list file before it was opened or after it was closed.
---
 src/exp.c  | 2 +-
 src/main.c | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/exp.c b/src/exp.c
index 29646ce..cce0530 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -1011,7 +1011,7 @@ const char *pushsymbol(const char *str)
     if (ptr == str) {
         asmerr( ERROR_ILLEGAL_CHARACTER, false, str );
         printf("char = '%c' %d (-1: %d)\n", *str, *str, *(str-1));
-        if (F_listfile)
+        if (FI_listfile)
             fprintf(FI_listfile, "char = '%c' code %d\n", *str, *str);
         return str+1;
     }
diff --git a/src/main.c b/src/main.c
index 440f535..a79cc7b 100644
--- a/src/main.c
+++ b/src/main.c
@@ -719,8 +719,10 @@ nextpass:
 
     closegenerate();
     fclose(FI_temp);
-    if (FI_listfile)
+    if (FI_listfile) {
         fclose(FI_listfile);
+        FI_listfile = NULL;
+    }
 
     if (mlflag) // check if a multi-line comment is missing a terminator
         return ERROR_MISSING_COMMENT_END;
@@ -780,7 +782,7 @@ nextpass:
 
     if (nMacroClosings != nMacroDeclarations) {
         /* determine the file pointer to use */
-        FILE *error_file = (F_listfile != NULL) ? FI_listfile : stdout;
+        FILE *error_file = (FI_listfile != NULL) ? FI_listfile : stdout;
 
     	fprintf(error_file, "premature end of file, macros opened:%d  closed:%d", nMacroDeclarations, nMacroClosings);
         fprintf(error_file, "Aborting assembly\n");
@@ -1625,7 +1627,7 @@ int asmerr(int err, bool bAbort, const char *sText )
         */
 
         /* determine the file pointer to use */
-        error_file = (F_listfile != NULL) ? FI_listfile : stdout;
+        error_file = (FI_listfile != NULL) ? FI_listfile : stdout;
 
         /* print first part of message, different formats offered */
 	if (pincfile != NULL)
-- 
2.43.0


From ad1fa0dabad5765e37e6d1b2a36892f79113a199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:46:11 +0000
Subject: [PATCH 17/83] fix: -R removes the output file when the assembly is
 aborted

The option had no effect for errors that abort the assembly at once, such as
ERR or a division by zero, and for a missing ENDM.
---
 src/main.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/main.c b/src/main.c
index a79cc7b..a992fc7 100644
--- a/src/main.c
+++ b/src/main.c
@@ -51,6 +51,7 @@ MNEMONIC *parse(char *buf);
 void panic(const char *str);
 MNEMONIC *findmne(char *str);
 void clearsegs(void);
+static void abortassembly(int nError);
 void clearrefs(void);
 
 static unsigned int hash1(const char *str);
@@ -787,7 +788,7 @@ nextpass:
     	fprintf(error_file, "premature end of file, macros opened:%d  closed:%d", nMacroDeclarations, nMacroClosings);
         fprintf(error_file, "Aborting assembly\n");
 
-        exit(ERROR_MISSING_ENDM);
+        abortassembly(ERROR_MISSING_ENDM);
     }
     printf( "Complete. (%d)\n", nError);
     return nError;
@@ -1137,7 +1138,18 @@ br2:
 void panic(const char *str)
 {
     puts(str);
-    exit(1);
+    abortassembly(1);
+}
+
+/*
+*  Give up, removing the output file if that was asked for (-R)
+*/
+
+static void abortassembly(int nError)
+{
+    if (bRemoveOutBin && FI_temp)
+        unlink(F_outfile);
+    exit(nError);
 }
 
 /*
@@ -1695,7 +1707,7 @@ int asmerr(int err, bool bAbort, const char *sText )
             passbuffer_output(MSGBUF); // dump messages from this pass
             fprintf(error_file, "Aborting assembly\n");
             passbuffer_output(ERRORBUF); // time to dump the errors from this pass!
-            exit(err);
+            abortassembly(err);
         }
     }
 
-- 
2.43.0


From 4983464d040b250deee5d5c3397d3a22a3aa463a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:46:12 +0000
Subject: [PATCH 18/83] fix: DV with an undefined or ordinary label is not
 resolved

Nothing was generated for the line, and the assembly still succeeded.
---
 src/ops.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ops.c b/src/ops.c
index a3ed72f..241e13d 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -754,6 +754,8 @@ v_dc(char *str, MNEMONIC *mne)
         str += i;
         if (tmp == NULL) {
             puts("EQM label not found");
+            ++Redo;
+            Redo_why |= REASON_DV_NOT_RESOLVED_PROBABLY;
             return;
         }
         if (tmp->flags & SYM_MACRO) {
@@ -762,6 +764,8 @@ v_dc(char *str, MNEMONIC *mne)
         else
         {
             puts("must specify EQM label for DV");
+            ++Redo;
+            Redo_why |= REASON_DV_NOT_RESOLVED_PROBABLY;
             return;
         }
     }
-- 
2.43.0


From 0974a5fe912d3e2acab515b7d67bc1d91a843148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:46:13 +0000
Subject: [PATCH 19/83] fix: keep all bits of the values DV passes to its EQM
 expression

---
 src/asm.h     | 2 +-
 src/symbols.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asm.h b/src/asm.h
index 14707fa..6345c2f 100644
--- a/src/asm.h
+++ b/src/asm.h
@@ -422,7 +422,7 @@ char   *strlower(char *str);
 void addmsg(char *message);
 
 /* symbols.c */
-void    setspecial(int value, int flags);
+void    setspecial(long value, int flags);
 SYMBOL *allocsymbol(void);
 SYMBOL *findsymbol(const char *str, int len);
 SYMBOL *CreateSymbol( const char *str, int len, bool addToOrder );
diff --git a/src/symbols.c b/src/symbols.c
index aef90de..08ebaea 100644
--- a/src/symbols.c
+++ b/src/symbols.c
@@ -34,7 +34,7 @@ static SYMBOL org;
 static SYMBOL special;
 static SYMBOL specchk;
 
-void setspecial(int value, int flags)
+void setspecial(long value, int flags)
 {
     special.value = value;
     special.flags = flags;
-- 
2.43.0


From d71e7887d56c88fc271603ff8fec391c955f8b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:46:14 +0000
Subject: [PATCH 20/83] fix: reject negative bit numbers

They were added to the opcode and produced another instruction.
---
 src/ops.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index 241e13d..6634b0b 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -385,7 +385,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
 
         if (!(symbase->flags & SYM_UNKNOWN))
         {
-            if (symbase->value > 7)
+            if (symbase->value < 0 || symbase->value > 7)
                 asmerr( ERROR_ILLEGAL_BIT_SPECIFICATION, false, str );
             else
                 Gen[0] += symbase->value << 1;
@@ -396,7 +396,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
 
         if (!(symbase->flags & SYM_UNKNOWN))
         {
-            if (symbase->value > 7)
+            if (symbase->value < 0 || symbase->value > 7)
                 asmerr( ERROR_ILLEGAL_BIT_SPECIFICATION, false, str );
             else
                 Gen[0] += symbase->value << 1;
-- 
2.43.0


From 95de52494371697609ceff8b6c3bed6f78074a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:46:44 +0000
Subject: [PATCH 21/83] fix: operands that are symbols beginning with x, y or
 sp

An operand like xl or x_1 after a comma was taken for an index register.
---
 src/exp.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/exp.c b/src/exp.c
index cce0530..85761ae 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -456,7 +456,7 @@ SYMBOL *eval(const char *str, int wantmode)
                 cur->addrmode = AM_INDBYTEX;
                 ++str;
             }
-            else if (cur->addrmode != AM_INDWORD && scr != 'x' && scr != 'y' && (Processor == 16502))
+            else if (cur->addrmode != AM_INDWORD && !((scr == 'x' || scr == 'y') && !IsAlphaNum( str[2] )) && (Processor == 16502))
             {
                 cur->addrmode = AM_BYTEREL;
                 SYMBOL *pNewSymbol = allocsymbol();
@@ -615,7 +615,8 @@ int IsAlphaNum( int c )
 {
     return ((c >= 'a' && c <= 'z')
         || (c >= 'A' && c <= 'Z')
-        || (c >= '0' && c <= '9'));
+        || (c >= '0' && c <= '9')
+        || c == '_' || c == '.' || c == '@' || c == '$');
 }
 
 void evaltop(void)
-- 
2.43.0


From 7598bcde7e6b0a9c4c68cbd247e794bbba7ef548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:46:45 +0000
Subject: [PATCH 22/83] fix: symbols named x, y and sp in the lists of
 directives

DC X,Y, the example in the manual, lost its second expression because it was
taken for an index register.
---
 src/exp.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/exp.c b/src/exp.c
index 85761ae..753cd16 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -142,6 +142,7 @@ SYMBOL *eval(const char *str, int wantmode)
     int oldargibase = Argibase;
     int oldopibase = Opibase;
     int scr;
+    int wantindex = wantmode;
 
     const char *pLine = str;
 
@@ -456,7 +457,7 @@ SYMBOL *eval(const char *str, int wantmode)
                 cur->addrmode = AM_INDBYTEX;
                 ++str;
             }
-            else if (cur->addrmode != AM_INDWORD && !((scr == 'x' || scr == 'y') && !IsAlphaNum( str[2] )) && (Processor == 16502))
+            else if (wantindex && cur->addrmode != AM_INDWORD && !((scr == 'x' || scr == 'y') && !IsAlphaNum( str[2] )) && (Processor == 16502))
             {
                 cur->addrmode = AM_BYTEREL;
                 SYMBOL *pNewSymbol = allocsymbol();
@@ -492,19 +493,19 @@ SYMBOL *eval(const char *str, int wantmode)
                    ++str;
 
             }
-            else if (scr == 'x' && !IsAlphaNum(str[2]))
+            else if (wantindex && scr == 'x' && !IsAlphaNum(str[2]))
             {
                 cur->addrmode = AM_0X;
                 ++str;
                 //FIX: OPCODE.FORCE / Mnext adaption moved to ops.c
             }
-            else if (scr == 'y' && !IsAlphaNum(str[2]))
+            else if (wantindex && scr == 'y' && !IsAlphaNum(str[2]))
             {
                 cur->addrmode = AM_0Y;
                 ++str;
                 //FIX: OPCODE.FORCE / Mnext adaption moved to ops.c
             }
-            else if ((scr == 's') && ((str[2]|0x20) == 'p') && !IsAlphaNum(str[3]))      // stack pointer indexed address mode
+            else if (wantindex && (scr == 's') && ((str[2]|0x20) == 'p') && !IsAlphaNum(str[3]))      // stack pointer indexed address mode
             {
                 cur->addrmode = AM_BYTEADR_SP;
                 ++str;
-- 
2.43.0


From 5d64ff22b48276cb0c700a3005acd09685c75dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:46:46 +0000
Subject: [PATCH 23/83] fix: only evaluate the argument of a dynamic label, not
 the rest of the line

The text up to the next comma was evaluated, including the directive or
instruction behind the label.
---
 src/main.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index a992fc7..51eaaeb 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1336,10 +1336,13 @@ MNEMONIC *parse(char *buf)
                 SYMBOL *symarg;
                 strncpy(tempbuf,buf+i+1,256);
                 tempbuf[256]=0;
-                for(t=0;t<strlen(tempbuf);t++)
+                for(t=0;tempbuf[t];t++)
                 {
-                    if(tempbuf[t] == ',')
+                    if(tempbuf[t] == ',' || tempbuf[t] == ' ' || tempbuf[t] == '=' || tempbuf[t] == ':')
+                    {
                         tempbuf[t]=0;
+                        break;
+                    }
                 }
                 symarg = eval(tempbuf,0);
                 if(symarg)
-- 
2.43.0


From 94bbfb20787b3f2539ca1fc7b5c447fd97c8f430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:47:06 +0000
Subject: [PATCH 24/83] fix: report output, list and symbol files that cannot
 be written

Write errors, for example on a full disk, were ignored: the assembly reported
success and left truncated files behind.  A symbol file that cannot be opened
now makes the assembly fail, like the other files.
---
 src/main.c | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/main.c b/src/main.c
index 51eaaeb..e65d4fc 100644
--- a/src/main.c
+++ b/src/main.c
@@ -383,7 +383,20 @@ static void ShowSegments(void)
 
 
 
-static void DumpSymbolTable( int sortMode )
+/* close a file that was written to; false if not everything could be written */
+static bool closefile( FILE *fi, const char *name )
+{
+    bool bError = ferror(fi) != 0;
+
+    if (fclose(fi) != 0)
+        bError = true;
+    if (bError)
+        printf("Warning: Unable to write '%s'\n", name);
+    return !bError;
+}
+
+/* false if there should be a symbol dump file, but it could not be written */
+static bool DumpSymbolTable( int sortMode )
 {
     if (F_symfile)
     {
@@ -391,14 +404,16 @@ static void DumpSymbolTable( int sortMode )
         if (fi)
         {
             ShowSymbols( fi, sortMode );
-            fclose(fi);
+            return closefile(fi, F_symfile);
         }
         else
         {
             printf("Warning: Unable to open Symbol Dump file '%s'\n", F_symfile);
+            return false;
         }
     }
 
+    return true;
 }
 
 
@@ -719,10 +734,16 @@ nextpass:
     }
 
     closegenerate();
-    fclose(FI_temp);
-    if (FI_listfile) {
-        fclose(FI_listfile);
-        FI_listfile = NULL;
+    {
+        bool bOutError = !closefile(FI_temp, F_outfile);
+        bool bListError = false;
+
+        if (FI_listfile) {
+            bListError = !closefile(FI_listfile, F_listfile);
+            FI_listfile = NULL;
+        }
+        if (bOutError || bListError)
+            return ERROR_FILE_ERROR;
     }
 
     if (mlflag) // check if a multi-line comment is missing a terminator
@@ -1796,7 +1817,8 @@ int main(int ac, char **av)
         printf( "Fatal assembly error: %s\n", sErrorDef[nError].sDescription );
     }
 
-    DumpSymbolTable( sortMode );
+    if ( !DumpSymbolTable( sortMode ) && nError == ERROR_NONE )
+        nError = ERROR_FILE_ERROR;
 
     passbuffer_cleanup();
 
-- 
2.43.0


From f74f327235407ca8ccc9694312d6d19777b69166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:47:23 +0000
Subject: [PATCH 25/83] fix: ftohex reports when its output cannot be written

---
 src/ftohex.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ftohex.c b/src/ftohex.c
index a201983..3f95395 100644
--- a/src/ftohex.c
+++ b/src/ftohex.c
@@ -67,7 +67,8 @@ main(int ac, char **av)
 	exiterr("unable to open output file");
     convert(format, infile, outfile);
     fclose(infile);
-    fclose(outfile);
+    if (ferror(outfile) | fclose(outfile))
+	exiterr("unable to write output file");
 
     return 0;
 }
-- 
2.43.0


From 6cf4e184a630efe9180bda02bd9a18c3e129684a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:47:32 +0000
Subject: [PATCH 26/83] fix: ftohex on empty and truncated input

Truncated input was converted with stale bytes, and an empty format 2 file
was converted to 64K of garbage.  An empty file, which is what dasm writes
when there is no data, now gives just the end record.
---
 src/ftohex.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/ftohex.c b/src/ftohex.c
index 3f95395..2032a77 100644
--- a/src/ftohex.c
+++ b/src/ftohex.c
@@ -105,8 +105,12 @@ convert(int format, FILE *in, FILE *out)
 
     if (format < 3)
     org = getwlh(in);
-    if (format == 2) {
+    if (feof(in)) {
+	len = 0;		/* dasm writes no header if there is no data */
+    } else if (format == 2) {
 	len = getwlh(in);
+	if (feof(in))
+	    exiterr("input file is truncated");
     } else {
 	long begin = ftell(in);
 	fseek(in, 0, SEEK_END);
@@ -119,7 +123,8 @@ convert(int format, FILE *in, FILE *out)
 	    register unsigned int i;
 
 	    idx = (len > PERLINE) ? PERLINE : len;
-	    fread(buf, idx, 1, in);
+	    if (fread(buf, idx, 1, in) != 1)
+		exiterr("input file is truncated");
 	    putc(':', out);
 	    puth(idx, out);
 	    puth(org >> 8, out);
@@ -142,6 +147,8 @@ convert(int format, FILE *in, FILE *out)
 	    if (feof(in))
 		break;
 	    len = getwlh(in);
+	    if (feof(in))
+		exiterr("input file is truncated");
 	} else {
 	    break;
 	}
@@ -151,11 +158,15 @@ convert(int format, FILE *in, FILE *out)
 
 unsigned int getwlh(FILE *in)
 {
-    unsigned int result;
-
-    result = getc(in);
-    result += getc(in) << 8;
-    return result;
+    int lo, hi;
+
+    lo = getc(in);
+    if (lo == EOF)
+	return 0;
+    hi = getc(in);
+    if (hi == EOF)
+	exiterr("input file is truncated");
+    return lo + (hi << 8);
 }
 
 void
-- 
2.43.0


From 857fc5195d96ce63cbbe77a18aa248ed3cff4274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:52:22 +0000
Subject: [PATCH 27/83] fix: no hunk length in a format 2 output file without
 hunks

A program that generates no bytes produced a two byte file with -f2.
The length was written although no hunk had been started.
---
 src/ops.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ops.c b/src/ops.c
index 6634b0b..76ea563 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1775,7 +1775,7 @@ void closegenerate(void)
 {
     if (!Redo)
     {
-        if ( F_format == FORMAT_RAS )
+        if ( F_format == FORMAT_RAS && !Fisclear )
         {
             fseek(FI_temp, Seekback, 0);
             putc((Seglen & 0xFF), FI_temp);
-- 
2.43.0


From 600ffc0422e876e1860d11a89df5145476ca2e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:52:23 +0000
Subject: [PATCH 28/83] fix: start another hunk before the length of a format 2
 hunk overflows

With -f2 a hunk of 64K or more got a length field that had wrapped around,
so readers of the file lost track of the hunks.
---
 src/ops.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ops.c b/src/ops.c
index 76ea563..d74c13a 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1732,7 +1732,8 @@ generate(void)
 
             case FORMAT_RAS:
 
-                if (org != Csegment->org)
+                /* the length of a hunk has 16 bits */
+                if (org != Csegment->org || Seglen + Glen > 0xFFFF)
                 {
                     org = Csegment->org;
                     seekpos = ftell(FI_temp);
-- 
2.43.0


From f79f4c1a8eeb03a5fc6c504416a407cf86be2621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:52:24 +0000
Subject: [PATCH 29/83] fix: take the argument of -m in kB as documented

The help text and the manual say the limit is in kB, but it was used as
a number of bytes.
---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index e65d4fc..ace2fe0 100644
--- a/src/main.c
+++ b/src/main.c
@@ -595,7 +595,7 @@ nofile:
             	if (argVal <= 64) {
             		panic("-m Switch invalid argument, should be > 64");
             	} else {
-            		maxFileSize = argVal;
+            		maxFileSize = argVal * 1024UL;
             	}
                 break;
 
-- 
2.43.0


From 2e8e1099a24f4ebd5d1394cab78530078b115b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:52:43 +0000
Subject: [PATCH 30/83] fix: check the size limit before writing instead of
 after

An origin far behind the current one filled the disk before the limit of
the output size was checked, and a DS with a huge count was silently
ignored because the number of bytes overflowed.
---
 src/ops.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index d74c13a..a0e5266 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1661,6 +1661,18 @@ pfopen(const char *name, const char *mode)
 static long Seglen;
 static long Seekback;
 
+/* safety barrier against runaway code: 'len' more bytes must fit */
+static void
+checksize(unsigned long len)
+{
+    if (Csegment->org > maxFileSize || len > maxFileSize - Csegment->org) {
+        char errMsg[128];
+        sprintf(errMsg, "code segment growing larger (%lu) than max. allowed file size (%lu)\n"
+                        ,Csegment->org + len, maxFileSize);
+        asmerr( ERROR_RECURSION_TOO_DEEP, true, errMsg );
+    }
+}
+
 void
 generate(void)
 {
@@ -1668,6 +1680,8 @@ generate(void)
     static unsigned long org;
     int i;
 
+    checksize(Glen);
+
     if (!Redo)
     {
         if (!(Csegment->flags & SF_BSS))
@@ -1762,14 +1776,6 @@ generate(void)
 
     if (Csegment->flags & SF_RORG)
         Csegment->rorg += Glen;
-
-    if (Csegment->org > maxFileSize) {
-    	char errMsg[128];
-    	sprintf(errMsg, "code segment growing larger (%ld) than max. allowed file size (%ld)\n"
-    					,Csegment->org, maxFileSize);
-    	asmerr( ERROR_RECURSION_TOO_DEEP, true, errMsg );
-    	return;
-    }
 }
 
 void closegenerate(void)
@@ -1801,6 +1807,7 @@ genfill(long fill, long entries, int size)
     	asmerr( ERROR_ORIGIN_REVERSE_INDEXED, true, NULL );
     	return;
     }
+    checksize(entries);
 
     c3 = fill >> 24;
     c2 = fill >> 16;
-- 
2.43.0


From 9ec0b8eb7ddc2c876772dd55cfb2b2963dbe108e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:52:57 +0000
Subject: [PATCH 31/83] fix: unary operator after a binary operator of lower
 precedence

In 1==1 & -1 the minus was taken for a subtraction, because evaluating the
comparison first made the parser forget that it was behind an operator.
---
 src/exp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/exp.c b/src/exp.c
index 753cd16..8ea042a 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -727,6 +727,7 @@ void doop(opfunc_t func, int pri)
 
     while (Opi != Opibase && Oppri[Opi-1] && pri <= Oppri[Opi-1])
         evaltop();
+    Lastwasop = 1;      /* evaltop() stacked a result */
 
     if (Xdebug)
         printf("doop @ %d\n", Opi);
-- 
2.43.0


From 6b7a3d9172e321e9f0e0cef8234d79f1c46b32b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:52:58 +0000
Subject: [PATCH 32/83] fix: print all addresses in the list of segments

The list that -v1 prints was missing most of the addresses, because the
buffer that holds them was overwritten before it was printed.
---
 src/main.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/main.c b/src/main.c
index ace2fe0..3fb3967 100644
--- a/src/main.c
+++ b/src/main.c
@@ -311,9 +311,12 @@ static void ShowSegments(void)
     {
         bss = (seg->flags & SF_BSS) ? "[u]" : "   ";
 
-        printf( sFormat, seg->name, bss,
-            sftos(seg->initorg, seg->initflags), sftos(seg->initrorg, seg->initrflags),
-            sftos(seg->org, seg->flags), sftos(seg->rorg, seg->rflags) );
+        /* the result of sftos() is only good until its next call */
+        printf( "%-24s %-3s ", seg->name, bss );
+        printf( "%-8s ", sftos(seg->initorg, seg->initflags) );
+        printf( "%-8s ", sftos(seg->initrorg, seg->initrflags) );
+        printf( "%-8s ", sftos(seg->org, seg->flags) );
+        printf( "%-8s\n", sftos(seg->rorg, seg->rflags) );
     }
     puts("----------------------------------------------------------------------");
 
-- 
2.43.0


From 21b6b0623d6f435613e06301b076a7aec658236b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:53:20 +0000
Subject: [PATCH 33/83] fix: IFCONST and IFNCONST in skipped blocks and of
 strings

In a block that is skipped they still defined their label and evaluated
their expression.  A symbol with a string value was taken for undefined.
---
 src/ops.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index a0e5266..1d673da 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1426,9 +1426,13 @@ v_ifconst(char *str, MNEMONIC *dummy)
 {
     SYMBOL *sym;
 
+    if (!Ifstack->xtrue || !Ifstack->acctrue) {
+        pushif(0);
+        return;
+    }
     programlabel();
     sym = eval(str, 0);
-    pushif(sym->flags == 0);
+    pushif((sym->flags & SYM_UNKNOWN) == 0);
     FreeSymbolList(sym);
 }
 
@@ -1437,9 +1441,13 @@ v_ifnconst(char *str, MNEMONIC *dummy)
 {
     SYMBOL *sym;
 
+    if (!Ifstack->xtrue || !Ifstack->acctrue) {
+        pushif(0);
+        return;
+    }
     programlabel();
     sym = eval(str, 0);
-    pushif(sym->flags != 0);
+    pushif((sym->flags & SYM_UNKNOWN) != 0);
     FreeSymbolList(sym);
 }
 
-- 
2.43.0


From 5e04f5242ab4118e2b2d5236b5d0938eb08acbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:53:21 +0000
Subject: [PATCH 34/83] fix: no repeated macro error for a definition that is
 skipped

With -S a second definition of a macro was an error even inside an IF block
that is not assembled.  The check also took instructions for macros.
---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 3fb3967..a2861b4 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1526,7 +1526,7 @@ void v_macro(char *str, MNEMONIC *dummy)
     }
     else {
         mac = (MACRO *)mne;
-        if( (bStrictMode) && (mac != NULL) && (mac->defpass == pass) )
+        if( (bStrictMode) && !skipit && (mac->flags & MF_MACRO) && (mac->defpass == pass) )
             asmerr( ERROR_MACRO_REPEATED, true, str );
     }
     while (fgets(buf, MAXLINE, pIncfile->fi)) {
-- 
2.43.0


From ed2c070caa1603622603bafd4d801b4a00b5b7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:54:47 +0000
Subject: [PATCH 35/83] fix: buffers that are too small for the words of a long
 line

A line of more than 512 characters, an instruction name of more than 63
characters or a long line in the list file overran a buffer.  The argument
of a dynamic label was cut after 256 characters.
---
 src/asm.h     |  1 +
 src/globals.c |  2 +-
 src/main.c    | 12 ++++++------
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/asm.h b/src/asm.h
index 6345c2f..012cd31 100644
--- a/src/asm.h
+++ b/src/asm.h
@@ -66,6 +66,7 @@ enum FORMAT
 };
 
 #define MAXLINE 1024
+#define AVBUFSIZE (MAXLINE*8)       /* dynamic labels can expand */
 #define MAX_SYM_LEN 1024
 
 enum ASM_ERROR_EQUATES
diff --git a/src/globals.c b/src/globals.c
index 36c7bd3..0ba883b 100644
--- a/src/globals.c
+++ b/src/globals.c
@@ -37,7 +37,7 @@ SEGMENT *Seglist;	    /*	segment list	    */
 SEGMENT *Csegment;	    /*	current segment     */
 IFSTACK *Ifstack;	    /*	IF/ELSE/ENDIF stack */
 char	*Av[256];	    /*	up to 256 arguments */
-char	Avbuf[512];
+char	Avbuf[AVBUFSIZE];
 unsigned char	MsbOrder = 1;
 int	Mnext;
 char	Inclevel;
diff --git a/src/main.c b/src/main.c
index a2861b4..0e52c93 100644
--- a/src/main.c
+++ b/src/main.c
@@ -860,8 +860,8 @@ static void outlistfile(const char *comment)
 {
     char xtrue;
     char c;
-    static char buf1[MAXLINE+32];
-    static char buf2[MAXLINE+32];
+    static char buf1[AVBUFSIZE+MAXLINE+64];
+    static char buf2[AVBUFSIZE+MAXLINE+64];
     const char *ptr;
     const char *dot;
     int i, j;
@@ -1355,11 +1355,11 @@ MNEMONIC *parse(char *buf)
             else // or else it's a symbol to be evaluated, and added to the label
             {
                 int t;
-                char tempbuf[257];
+                char tempbuf[MAXLINE];
                 char tempval[257];
                 SYMBOL *symarg;
-                strncpy(tempbuf,buf+i+1,256);
-                tempbuf[256]=0;
+                strncpy(tempbuf,buf+i+1,MAXLINE-1);
+                tempbuf[MAXLINE-1]=0;
                 for(t=0;tempbuf[t];t++)
                 {
                     if(tempbuf[t] == ',' || tempbuf[t] == ' ' || tempbuf[t] == '=' || tempbuf[t] == ':')
@@ -1452,7 +1452,7 @@ MNEMONIC *findmne(char *str)
     int i;
     char c;
     MNEMONIC *mne;
-    char buf[64];
+    char buf[AVBUFSIZE];
 
 
     if (str[0] == '.') {    /* Allow .OP for OP */
-- 
2.43.0


From b455240ba67a04036b7e958b341ac7844fe45b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:55:02 +0000
Subject: [PATCH 36/83] fix: error messages that quote a long line overran
 their buffers

---
 src/exp.c  |  4 ----
 src/main.c | 14 +++++++-------
 src/ops.c  | 22 +++++++++++-----------
 3 files changed, 18 insertions(+), 22 deletions(-)

diff --git a/src/exp.c b/src/exp.c
index 8ea042a..05054e1 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -382,8 +382,6 @@ SYMBOL *eval(const char *str, int wantmode)
 		//FIX: detect illegal opc (zp),x syntax...
                 if (cur->addrmode == AM_INDWORD && str[1] == ',' && (str[2]|0x20) == 'x')
                 {
-                   char sBuffer[128];
-                   sprintf( sBuffer, "%s", str );
                    asmerr( ERROR_ILLEGAL_ADDRESSING_MODE,false, pLine );
                    ++Redo;
                    Redo_why |= REASON_MNEMONIC_NOT_RESOLVED;
@@ -480,8 +478,6 @@ SYMBOL *eval(const char *str, int wantmode)
             //FIX: detect illegal opc (zp,y) syntax...
             else if ((cur->addrmode == AM_INDWORD && scr == 'y' && str[2]==')')&&(wantmode))
             {
-                   char sBuffer[128];
-                   sprintf( sBuffer, "%s", str );
                    asmerr( ERROR_ILLEGAL_ADDRESSING_MODE,false, pLine );
                    ++Redo;
                    Redo_why |= REASON_MNEMONIC_NOT_RESOLVED;
diff --git a/src/main.c b/src/main.c
index 0e52c93..9b28bb1 100644
--- a/src/main.c
+++ b/src/main.c
@@ -68,9 +68,9 @@ void passbuffer_cleanup(void);
 
 int mlflag = 0; // multi-line comments
 
-static char erroradd1[500]; // temp error holders
-static char erroradd2[500];
-static char erroradd3[500];
+static char erroradd1[AVBUFSIZE+64]; // temp error holders
+static char erroradd2[AVBUFSIZE+64];
+static char erroradd3[2];
 
 /* Table encapsulates errors, descriptions, and fatality flags. */
 
@@ -1680,7 +1680,7 @@ int asmerr(int err, bool bAbort, const char *sText )
                 if(error_file!=stdout)
                     fprintf(error_file, "%s (%lu): error: ",
                         pincfile->name, pincfile->lineno);
-                sprintf(erroradd1, "%s (%lu): error: ",
+                snprintf(erroradd1, sizeof(erroradd1), "%s (%lu): error: ",
                     pincfile->name, pincfile->lineno); // -FXQ
                 break;
             case ERRORFORMAT_DILLON:
@@ -1696,7 +1696,7 @@ int asmerr(int err, bool bAbort, const char *sText )
                 if(error_file!=stdout)
                     fprintf(error_file, "line %7ld %-10s ",
                         pincfile->lineno, pincfile->name);
-                sprintf(erroradd1, "line %7ld %-10s ",
+                snprintf(erroradd1, sizeof(erroradd1), "line %7ld %-10s ",
                     pincfile->lineno, pincfile->name); // -FXQ
                 break;
             case ERRORFORMAT_GNU:
@@ -1707,7 +1707,7 @@ int asmerr(int err, bool bAbort, const char *sText )
                 if(error_file!=stdout)
                     fprintf(error_file, "%s:%lu: error: ",
                         pincfile->name, pincfile->lineno);
-                sprintf(erroradd1, "%s:%lu: error: ",
+                snprintf(erroradd1, sizeof(erroradd1), "%s:%lu: error: ",
                     pincfile->name, pincfile->lineno); // -FXQ
                 break;
             default:
@@ -1722,7 +1722,7 @@ int asmerr(int err, bool bAbort, const char *sText )
             fprintf(error_file, str, sText ? sText : "");
             fprintf(error_file, "\n");
         }
-        sprintf(erroradd2, str, sText ? sText : "");
+        snprintf(erroradd2, sizeof(erroradd2), str, sText ? sText : "");
         sprintf(erroradd3, "\n");
 
 	passbuffer_update(ERRORBUF,erroradd1);
diff --git a/src/ops.c b/src/ops.c
index 1d673da..6481b2d 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -158,7 +158,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
     SYMBOL *symbase;
     int     opsize;
     bool	byteRequested;
-    char sBuffer[128];
+    char sBuffer[AVBUFSIZE];
 
     Csegment->flags |= SF_REF;
     programlabel();
@@ -205,7 +205,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
 
     if (badcode(mne,addrmode))
     {
-        sprintf( sBuffer, "%s %s", mne->name, str );
+        snprintf( sBuffer, sizeof(sBuffer), "%s %s", mne->name, str );
         asmerr( ERROR_ILLEGAL_ADDRESSING_MODE, false, sBuffer );
         FreeSymbolList(symbase);
         //FIX
@@ -285,7 +285,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
     	case AM_BYTEADR_SP:
     		byteRequested = true;
     		if (opsize > 1) {
-    			sprintf( sBuffer, "%s %s, user requested byte mode", mne->name, str );
+    			snprintf( sBuffer, sizeof(sBuffer), "%s %s, user requested byte mode", mne->name, str );
     			asmerr( ERROR_ADDRESS_MUST_BE_LT_100, false, sBuffer );
     		}
     		break;
@@ -299,7 +299,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
     	case AM_INDWORD:
     	case AM_WORDADR_SP:
     		if ( bStrictMode && ((sym->value > 0xFFFF) || (sym->value < -0xFFFF))) {	// isn't this our space ?
-    			sprintf( sBuffer, "%s %s", mne->name, str );
+    			snprintf( sBuffer, sizeof(sBuffer), "%s %s", mne->name, str );
     			asmerr( ERROR_ADDRESS_MUST_BE_LT_10000, false, sBuffer );
     		}
     		break;
@@ -310,7 +310,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
     	case AM_BYTEADRY:
     	case AM_BYTEADR_SP:
     		if (sym->value < -0xFF) {	// isn't this our space ?
-    			sprintf( sBuffer, "negative %s %s", mne->name, str );
+    			snprintf( sBuffer, sizeof(sBuffer), "negative %s %s", mne->name, str );
     			asmerr( ERROR_ADDRESS_MUST_BE_LT_100, false, sBuffer );
     		}
     		break;
@@ -354,7 +354,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
             }
 	    }
 
-        sprintf( sBuffer, "%s %s", mne->name, str );
+        snprintf( sBuffer, sizeof(sBuffer), "%s %s", mne->name, str );
 
         asmerr( ERROR_ADDRESS_MUST_BE_LT_100, false, sBuffer );
         break;
@@ -378,7 +378,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
     case AM_BITMOD:
         sym = symbase->next;
         if (!(sym->flags & SYM_UNKNOWN) && sym->value >= 0x100) {
-            sprintf( sBuffer, "unknown %s %ld", mne->name, sym->value);
+            snprintf( sBuffer, sizeof(sBuffer), "unknown %s %ld", mne->name, sym->value);
             asmerr( ERROR_ADDRESS_MUST_BE_LT_100, false, sBuffer );
         }
         Gen[opidx++] = sym->value;
@@ -405,7 +405,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
         sym = symbase->next;
 
         if (!(sym->flags & SYM_UNKNOWN) && sym->value >= 0x100) {
-            sprintf( sBuffer, "%s %ld", mne->name, sym->value);
+            snprintf( sBuffer, sizeof(sBuffer), "%s %ld", mne->name, sym->value);
             asmerr( ERROR_ADDRESS_MUST_BE_LT_100, false, sBuffer );
         }
         Gen[opidx++] = sym->value;
@@ -439,7 +439,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
         if (sym)
         {
             if (!(sym->flags & SYM_UNKNOWN) && sym->value >= 0x100) {
-                sprintf( sBuffer, "unknown && > 256 %s %ld", mne->name, sym->value);
+                snprintf( sBuffer, sizeof(sBuffer), "unknown && > 256 %s %ld", mne->name, sym->value);
                 asmerr( ERROR_ADDRESS_MUST_BE_LT_100, false, sBuffer );
             }
             Gen[opidx] = sym->value;
@@ -478,7 +478,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
                     //     another pass. ERROR_BRANCH_OUT_OF_RANGE was made non-fatal, but we keep
                     //     pushing for Redo so assembly won't actually be succesfull until the branch
                     //     actually works.
-                        sprintf( sBuffer, "%ld", dest );
+                        snprintf( sBuffer, sizeof(sBuffer), "%ld", dest );
                         asmerr( ERROR_BRANCH_OUT_OF_RANGE, false, sBuffer );
             		++Redo;
             		Redo_why |= REASON_BRANCH_OUT_OF_RANGE;
@@ -1327,7 +1327,7 @@ v_execmac(char *str, MACRO *mac)
 
     if (Mlevel == MAXMACLEVEL) {
         char errMsg[256];
-        sprintf(errMsg, " macro [%s] recursion > %d", mac->name, MAXMACLEVEL);
+        snprintf(errMsg, sizeof(errMsg), " macro [%s] recursion > %d", mac->name, MAXMACLEVEL);
         asmerr( ERROR_RECURSION_TOO_DEEP, true, errMsg );
         return;
     }
-- 
2.43.0


From 7628482242c2d314653e8896d61252d925b7912a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:55:03 +0000
Subject: [PATCH 37/83] fix: ECHO of a string of 256 or more characters overran
 a buffer

---
 src/ops.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index 6481b2d..afe072c 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1166,19 +1166,23 @@ v_echo(char *str, MNEMONIC *dummy)
 {
     SYMBOL *sym = eval(str, 0);
     SYMBOL *s;
-    char buf[256];
+    char buf[32];
+    char *text;
 
     for (s = sym; s; s = s->next) {
         if (!(s->flags & SYM_UNKNOWN)) {
             if (s->flags & (SYM_MACRO|SYM_STRING))
-                sprintf(buf,"%s", s->string);
+                text = s->string;
             else
+            {
                 sprintf(buf,"$%lx", s->value);
+                text = buf;
+            }
             if (FI_listfile)
-                fprintf(FI_listfile, " %s", buf);
-            //printf(" %s", buf);
+                fprintf(FI_listfile, " %s", text);
+            //printf(" %s", text);
             addmsg(" "); // -FXQ supress output until final pass
-            addmsg(buf);
+            addmsg(text);
         }
     }
     //puts("");
-- 
2.43.0


From 20625e7b027557dfbaeca280d89c8bcafd64381d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:55:05 +0000
Subject: [PATCH 38/83] fix: the buffers for messages were one byte too small
 when they grew

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 9b28bb1..e6ca914 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1861,7 +1861,7 @@ void passbuffer_update(int mbindex,char *message)
     }
 
     // check if we need to grow the buffer...
-    newsizerequired=strlen(passbuffer[mbindex])+strlen(message);
+    newsizerequired=strlen(passbuffer[mbindex])+strlen(message)+1;
     if( newsizerequired > passbuffersize[mbindex])
     {
         char *tmpalloc;
-- 
2.43.0


From 8c59bc5f0c767c0e6eb8c0ca5c98f69f0930561c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:55:06 +0000
Subject: [PATCH 39/83] fix: file names and include directories of more than
 512 characters overran a buffer

---
 src/ops.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index afe072c..3218b68 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1655,17 +1655,16 @@ pfopen(const char *name, const char *mode)
     if (strchr(name, ':'))
         return NULL;
 
-    buf = zmalloc(512);
+    f = NULL;
 
-    for (incdir = incdirlist; incdir; incdir = incdir->next) {
+    for (incdir = incdirlist; incdir && !f; incdir = incdir->next) {
+        buf = ckmalloc(strlen(incdir->buf) + strlen(name) + 2);
         addpart(buf, incdir->buf, name);
 
         f = fopen(buf, mode);
-        if (f)
-            break;
+        free(buf);
     }
 
-    free(buf);
     return f;
 }
 
-- 
2.43.0


From 407d4ba9948ea08933cd1b11fc7f2cf79c46ffc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:55:23 +0000
Subject: [PATCH 40/83] fix: DC with more than 1024 bytes of data overran a
 buffer

---
 src/ops.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/ops.c b/src/ops.c
index 3218b68..d360273 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -706,6 +706,19 @@ v_err(char *str, MNEMONIC *dummy)
     exit(1);
 }
 
+/* make room for another value in Gen[], true if that generated what was there */
+static bool
+genroom(unsigned char *first, bool flushed)
+{
+    if (Glen <= (int)sizeof(Gen) - 4)
+        return false;
+    if (!flushed)
+        memcpy(first, Gen, 4);
+    generate();
+    Glen = 0;
+    return true;
+}
+
 void
 v_dc(char *str, MNEMONIC *mne)
 {
@@ -714,6 +727,8 @@ v_dc(char *str, MNEMONIC *mne)
     long  value;
     char *macstr = 0;		/* "might be used uninitialised" */
     char vmode = 0;
+    bool flushed = false;
+    unsigned char first[4] = { 0 };	/* for the listing if there is a lot of data */
     char sBuffer[128];		/* verbose error messages*/
 
     Glen = 0;
@@ -779,6 +794,7 @@ v_dc(char *str, MNEMONIC *mne)
         if (sym->flags & SYM_STRING) {
             unsigned char *ptr = (void *)sym->string;
             while ((value = *ptr) != 0) {
+                flushed |= genroom(first, flushed);
                 if (vmode) {
                     setspecial(value, 0);
                     tmp = eval(macstr, 0);
@@ -837,6 +853,7 @@ v_dc(char *str, MNEMONIC *mne)
         }
         else
         {
+            flushed |= genroom(first, flushed);
             if (vmode) {
                 setspecial(value, sym->flags);
                 tmp = eval(macstr, 0);
@@ -910,6 +927,10 @@ v_dc(char *str, MNEMONIC *mne)
         }
     }
     generate();
+    if (flushed) {
+        memcpy(Gen, first, sizeof(first));
+        Glen = sizeof(first) + 1;
+    }
     FreeSymbolList(sym);
 }
 
-- 
2.43.0


From eb7e5233bd2326bfca6d21d7b07d5a370be23ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:55:24 +0000
Subject: [PATCH 41/83] fix: listing of DS and ALIGN with more than 1024 bytes

The list file showed what was left after the last 1024 bytes, which could
be less than four bytes and then looked like the whole data.
---
 src/ops.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ops.c b/src/ops.c
index d360273..2650e2f 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1828,6 +1828,7 @@ void
 genfill(long fill, long entries, int size)
 {
     long bytes = entries;  /*	multiplied later    */
+    long total;
     int i;
     unsigned char c3,c2,c1,c0;
 
@@ -1890,10 +1891,13 @@ genfill(long fill, long entries, int size)
         break;
     }
 
+    total = bytes;
     for (Glen = sizeof(Gen); bytes > sizeof(Gen); bytes -= sizeof(Gen))
         generate();
     Glen = bytes;
     generate();
+    if (bytes != total)
+        Glen = sizeof(Gen);     /* so that the listing shows there is more */
 }
 
 void
-- 
2.43.0


From 28a9e6facb6bda38776b882d9ede6546600e342e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:55:44 +0000
Subject: [PATCH 42/83] fix: list file shows bytes of earlier lines that were
 not listed

After LIST OFF at the end of a pass or LIST LOCALOFF at the end of an
include file the next line in the list file got the bytes of the last
line that was not listed.
---
 src/main.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.c b/src/main.c
index e6ca914..5ad974c 100644
--- a/src/main.c
+++ b/src/main.c
@@ -676,6 +676,7 @@ nextpass:
 
             comment = cleanup(buf, false);
             ++pIncfile->lineno;
+            Glen = 0;       /* nothing to list from this line yet */
             mne = parse(buf);
 
             if (Av[1][0])
-- 
2.43.0


From d635ed0104079a6d25fcce2e2786ce877993b7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:55:45 +0000
Subject: [PATCH 43/83] fix: line number of errors in strings, comments and
 macro arguments

Errors that are found before a line is split into words were reported for
the line before.
---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 5ad974c..ab47512 100644
--- a/src/main.c
+++ b/src/main.c
@@ -674,8 +674,8 @@ nextpass:
             if (Xdebug)
                 printf("%08lx %s\n", (unsigned long) pIncfile, buf);
 
-            comment = cleanup(buf, false);
             ++pIncfile->lineno;
+            comment = cleanup(buf, false);
             Glen = 0;       /* nothing to list from this line yet */
             mne = parse(buf);
 
-- 
2.43.0


From 5666863a2faed2c792fa906c3fdce9e2628a9259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:56:04 +0000
Subject: [PATCH 44/83] fix: comments on lines of the maximum length overran
 the line buffer

---
 src/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index ab47512..7f97413 100644
--- a/src/main.c
+++ b/src/main.c
@@ -425,7 +425,7 @@ static int MainShadow(int ac, char **av, int *pSortMode )
     int nError = ERROR_NONE;
     bool bDoAllPasses = false;
 
-    char buf[MAXLINE];
+    char buf[MAXLINE+2];      /* cleanup() can add to the line */
     int i;
     int argVal;
     MNEMONIC *mne;
@@ -1496,7 +1496,7 @@ void v_macro(char *str, MNEMONIC *dummy)
     MACRO *mac;    /* slp, mac: might be used uninitialised */
     MNEMONIC   *mne;
     unsigned int i;
-    char buf[MAXLINE];
+    char buf[MAXLINE+2];      /* cleanup() can add to the line */
     int skipit = !(Ifstack->xtrue && Ifstack->acctrue);
 
     strlower(str);
-- 
2.43.0


From c27b7ff340082b02ad34f6998687090c3cfe7a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:56:05 +0000
Subject: [PATCH 45/83] fix: quote at the end of a line in files with DOS line
 ends

It is a blank there, but was a carriage return in files with CR LF.
---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 7f97413..53112e8 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1067,7 +1067,7 @@ static const char *cleanup(char *buf, bool bDisable)
             ++str;
             if (*str == TAB)
                 *str = ' ';
-            if (*str == '\n' || *str == 0)
+            if (*str == '\r' || *str == '\n' || *str == 0)
             {
                 str[0] = ' ';
                 str[1] = 0;
-- 
2.43.0


From cd2a9f4bc1f84608fdb85a79ea0f461d95f3a6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:56:31 +0000
Subject: [PATCH 46/83] fix: comment delimiters inside strings and inside other
 comments

A string or character constant that contains /* or */ was taken for a
comment, and a block comment that contains a semicolon did not end on
its line.
---
 src/main.c | 61 ++++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 52 insertions(+), 9 deletions(-)

diff --git a/src/main.c b/src/main.c
index 53112e8..f2336fa 100644
--- a/src/main.c
+++ b/src/main.c
@@ -983,6 +983,40 @@ void clearrefs(void)
 
 
 
+/* the first comment delimiter that is not in a string or character constant */
+static char *findcomment(char *buf)
+{
+    char *str;
+
+    for (str = buf; *str; ++str)
+    {
+        switch(*str)
+        {
+        case ';':
+            return str;
+        case '/':
+            if (str[1] == '*')
+                return str;
+            break;
+        case '*':
+            if (str[1] == '/')
+                return str;
+            break;
+        case '\'':
+            if (str[1])
+                ++str;
+            break;
+        case '\"':
+            for (++str; *str && *str != '\"'; ++str);
+            if (*str == 0)
+                --str;
+            break;
+        }
+    }
+
+    return NULL;
+}
+
 static const char *cleanup(char *buf, bool bDisable)
 {
     char *str;
@@ -990,10 +1024,22 @@ static const char *cleanup(char *buf, bool bDisable)
     int arg, add;
     const char *comment = "";
 
-    char *mlstart, *mlend, *semistart;
-    mlstart=strstr(buf,"/*");
-    mlend=strstr(buf,"*/");
-    semistart=strstr(buf,";");
+    char *mlstart = NULL, *mlend;
+
+    if (mlflag)
+        mlend=strstr(buf,"*/");
+    else
+    {
+        mlstart=findcomment(buf);
+        if (mlstart && *mlstart == '*')
+        {
+            asmerr( ERROR_SPURIOUS_COMMENT_CLOSE, false, NULL );
+            mlstart=NULL;
+        }
+        if (mlstart && *mlstart == ';')
+            mlstart=NULL;
+        mlend=mlstart ? strstr(mlstart+2,"*/") : NULL;
+    }
 
     if (mlflag) // a previous multi-line comment is in progress...
     {
@@ -1022,12 +1068,9 @@ static const char *cleanup(char *buf, bool bDisable)
     }
     else // we're not presently in the middle of a multi-line comment...
     {
-        // check for spurious comment close
-        if (mlend && ( (!semistart) || (mlend < semistart) ) && ( (!mlstart) ||  (mlend < mlstart) ) )
-            asmerr( ERROR_SPURIOUS_COMMENT_CLOSE, false, NULL );
-        if (mlstart && ((!semistart) || (mlstart < semistart)))
+        if (mlstart)
         {
-            if (mlend && (mlstart < mlend) && ((!semistart)||(mlend < semistart))) // single line /* */
+            if (mlend) // single line /* */
             {
 	        char tempbuf[MAXLINE];
                 char *tmpc;
-- 
2.43.0


From cf8e00f10d5b9a1e18e358a9593071818f338814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:56:50 +0000
Subject: [PATCH 47/83] fix: report lines that are too long instead of
 splitting them

The part of a line behind the first 1023 characters was assembled as if
it was the next line, even if it was the end of a comment.
---
 src/main.c | 43 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/src/main.c b/src/main.c
index f2336fa..46ec0cd 100644
--- a/src/main.c
+++ b/src/main.c
@@ -46,6 +46,7 @@ static const char dasm_id[] = DASM_ID;
 #define atoi(x) ((int)strtol(x, (char **)NULL, 10))
 
 static const char *cleanup(char *buf, bool bDisable);
+static bool readline(char *buf);
 
 MNEMONIC *parse(char *buf);
 void panic(const char *str);
@@ -667,14 +668,15 @@ nextpass:
             }
             else
             {
-                if (fgets(buf, MAXLINE, pIncfile->fi) == NULL)
+                if (!readline(buf))
                     break;
             }
 
             if (Xdebug)
                 printf("%08lx %s\n", (unsigned long) pIncfile, buf);
 
-            ++pIncfile->lineno;
+            if (pIncfile->flags & INF_MACRO)
+                ++pIncfile->lineno;
             comment = cleanup(buf, false);
             Glen = 0;       /* nothing to list from this line yet */
             mne = parse(buf);
@@ -1017,6 +1019,38 @@ static char *findcomment(char *buf)
     return NULL;
 }
 
+/*
+*  Read the next line of the current file.  What does not fit is dropped,
+*  which is an error unless it is the end of a comment.
+*/
+
+static bool readline(char *buf)
+{
+    char *comment;
+    int c;
+
+    if (fgets(buf, MAXLINE, pIncfile->fi) == NULL)
+        return false;
+
+    ++pIncfile->lineno;
+
+    if (strlen(buf) == MAXLINE-1 && buf[MAXLINE-2] != '\n')
+    {
+        c = getc(pIncfile->fi);
+        if (c != '\n' && c != EOF)
+        {
+            comment = mlflag ? NULL : findcomment(buf);
+            if (comment == NULL || *comment != ';')
+                asmerr( ERROR_SYNTAX_ERROR, false, "line too long" );
+            do
+                c = getc(pIncfile->fi);
+            while (c != '\n' && c != EOF);
+        }
+    }
+
+    return true;
+}
+
 static const char *cleanup(char *buf, bool bDisable)
 {
     char *str;
@@ -1573,15 +1607,12 @@ void v_macro(char *str, MNEMONIC *dummy)
         if( (bStrictMode) && !skipit && (mac->flags & MF_MACRO) && (mac->defpass == pass) )
             asmerr( ERROR_MACRO_REPEATED, true, str );
     }
-    while (fgets(buf, MAXLINE, pIncfile->fi)) {
+    while (readline(buf)) {
         const char *comment;
 
         if (Xdebug)
             printf("%08lx %s\n", (unsigned long) pIncfile, buf);
 
-        ++pIncfile->lineno;
-
-
         comment = cleanup(buf, true);
 
         mne = parse(buf);
-- 
2.43.0


From 13948d4e36dc1dd96e5984118a7f7ef687854412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:56:51 +0000
Subject: [PATCH 48/83] fix: report expressions that are too complicated

Too many operators or arguments were dropped with a message and the
assembly went on with a wrong value, and too many nested brackets after
an operator overran a table.
---
 src/exp.c | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/exp.c b/src/exp.c
index 05054e1..4e286fa 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -363,9 +363,8 @@ SYMBOL *eval(const char *str, int wantmode)
 	    } else {
 		ucasm_indexed_notation = false;
             if (Opi == MAXOPS)
-                puts("too many ops");
-            else
-                Oppri[Opi++] = 0;
+                asmerr( ERROR_EXPRESSION_TABLE_OVERFLOW, true, pLine );
+            Oppri[Opi++] = 0;
             ++str;
 	    }
             break;
@@ -687,13 +686,12 @@ static void stackarg(long val, int flags, const char *ptr1)
         flags &= ~SYM_STRING;
         str = new;
     }
+    if (Argi == MAXARGS)
+        asmerr( ERROR_EXPRESSION_TABLE_OVERFLOW, true, NULL );
     Argstack[Argi] = val;
     Argstring[Argi] = str;
     Argflags[Argi] = flags;
-    if (++Argi == MAXARGS) {
-        puts("stackarg: maxargs stacked");
-        Argi = Argibase;
-    }
+    ++Argi;
     while (Opi != Opibase && Oppri[Opi-1] == 128)
         evaltop();
 }
@@ -728,15 +726,11 @@ void doop(opfunc_t func, int pri)
     if (Xdebug)
         printf("doop @ %d\n", Opi);
 
+    if (Opi == MAXOPS)
+        asmerr( ERROR_EXPRESSION_TABLE_OVERFLOW, true, NULL );
     Opdis[Opi] = func;
     Oppri[Opi] = pri;
     ++Opi;
-
-    if (Opi == MAXOPS)
-    {
-        puts("doop: too many operators");
-        Opi = Opibase;
-    }
     return;
 }
 
-- 
2.43.0


From 5ae1e9d2339f6085f6d265765237422bee12abf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:57:02 +0000
Subject: [PATCH 49/83] fix: empty item in a list of expressions read below the
 argument stack

---
 src/exp.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/exp.c b/src/exp.c
index 4e286fa..35d5b97 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -459,6 +459,11 @@ SYMBOL *eval(const char *str, int wantmode)
                 cur->addrmode = AM_BYTEREL;
                 SYMBOL *pNewSymbol = allocsymbol();
                 cur->next = pNewSymbol;
+                if (Argi != Argibase + 1)
+                    asmerr( ERROR_SYNTAX_ERROR, false, pLine );
+                if (Argi == Argibase)   // empty argument
+                    stackarg(0L, 0, NULL);
+                Lastwasop = 1;
                 --Argi;
                 cur->value = Argstack[Argi];
                 cur->flags = Argflags[Argi];
@@ -511,11 +516,12 @@ SYMBOL *eval(const char *str, int wantmode)
             {
                 SYMBOL *pNewSymbol = allocsymbol();
                 cur->next = pNewSymbol;
-                --Argi;
-                if (Argi < Argibase)
-                    asmerr( ERROR_SYNTAX_ERROR, false, pLine );
-                if (Argi > Argibase)
+                if (Argi != Argibase + 1)
                     asmerr( ERROR_SYNTAX_ERROR, false, pLine );
+                if (Argi == Argibase)   // empty argument
+                    stackarg(0L, 0, NULL);
+                Lastwasop = 1;
+                --Argi;
                 cur->value = Argstack[Argi];
                 cur->flags = Argflags[Argi];
 
-- 
2.43.0


From b62056d4e78253306d5570ca773fba946ba34bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:57:04 +0000
Subject: [PATCH 50/83] fix: illegal characters in expressions

The message read the character before the expression, which need not
exist, and after 1000 illegal characters the assembler gave up because of
recursion that did not happen.
---
 src/exp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/exp.c b/src/exp.c
index 35d5b97..3b30b4b 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -1009,9 +1009,10 @@ const char *pushsymbol(const char *str)
         );
     if (ptr == str) {
         asmerr( ERROR_ILLEGAL_CHARACTER, false, str );
-        printf("char = '%c' %d (-1: %d)\n", *str, *str, *(str-1));
+        printf("char = '%c' %d\n", *str, *str);
         if (FI_listfile)
             fprintf(FI_listfile, "char = '%c' code %d\n", *str, *str);
+        symbolRecursionCount--;
         return str+1;
     }
 
-- 
2.43.0


From 3da0a0b0d457a06aa6c6d319c2085a4610fa275b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:57:50 +0000
Subject: [PATCH 51/83] fix: report unbalanced brackets in expressions

A closing bracket without an opening one was ignored.  For an opening one
that is not closed, the operator that was last at its place in the table
was used once more; only when there was none yet it was an error.
---
 src/exp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/exp.c b/src/exp.c
index 3b30b4b..55042a1 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -364,6 +364,7 @@ SYMBOL *eval(const char *str, int wantmode)
 		ucasm_indexed_notation = false;
             if (Opi == MAXOPS)
                 asmerr( ERROR_EXPRESSION_TABLE_OVERFLOW, true, pLine );
+            Opdis[Opi] = NULL;      // so that it is an error if it is not closed
             Oppri[Opi++] = 0;
             ++str;
 	    }
@@ -406,6 +407,8 @@ SYMBOL *eval(const char *str, int wantmode)
                 evaltop();
             if (Opi != Opibase)
                 --Opi;
+            else if (cur->addrmode != AM_BYTEADRX && cur->addrmode != AM_BYTEADRY && cur->addrmode != AM_BYTEADR_SP)
+                asmerr( ERROR_UNBALANCED_BRACES, false, pLine );    // there is no opening one
             ++str;
 
 	    if (ucasm_indexed_notation) {
-- 
2.43.0


From 0112281164e957a31380b3b6f3de6f40ad5abcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:58:10 +0000
Subject: [PATCH 52/83] fix: check the operand of an instruction against its
 final size

The size was checked before the addressing mode was widened to 16 bits, so
with -S a value of more than 16 bits was accepted.  The checks did not
know the indirect modes.
---
 src/ops.c | 55 ++++++++++++++++++++++++++++++-------------------------
 1 file changed, 30 insertions(+), 25 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index 2650e2f..bf135a6 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -291,31 +291,6 @@ void v_mnemonic(char *str, MNEMONIC *mne)
     		break;
     }
 
-    switch(addrmode) {
-    	case AM_IMM16:
-    	case AM_WORDADR:
-    	case AM_WORDADRX:
-    	case AM_WORDADRY:
-    	case AM_INDWORD:
-    	case AM_WORDADR_SP:
-    		if ( bStrictMode && ((sym->value > 0xFFFF) || (sym->value < -0xFFFF))) {	// isn't this our space ?
-    			snprintf( sBuffer, sizeof(sBuffer), "%s %s", mne->name, str );
-    			asmerr( ERROR_ADDRESS_MUST_BE_LT_10000, false, sBuffer );
-    		}
-    		break;
-
-    	case AM_IMM8:
-    	case AM_BYTEADR:
-    	case AM_BYTEADRX:
-    	case AM_BYTEADRY:
-    	case AM_BYTEADR_SP:
-    		if (sym->value < -0xFF) {	// isn't this our space ?
-    			snprintf( sBuffer, sizeof(sBuffer), "negative %s %s", mne->name, str );
-    			asmerr( ERROR_ADDRESS_MUST_BE_LT_100, false, sBuffer );
-    		}
-    		break;
-    }
-
     while (opsize > Opsize[addrmode])
     {
         if (Cvt[addrmode] == 0 || badcode(mne,Cvt[addrmode]))
@@ -361,6 +336,36 @@ void v_mnemonic(char *str, MNEMONIC *mne)
         }
         addrmode = Cvt[addrmode];
     }
+    switch(addrmode) {
+    	case AM_IMM16:
+    	case AM_WORDADR:
+    	case AM_WORDADRX:
+    	case AM_WORDADRY:
+    	case AM_INDWORD:
+    	case AM_INDWORDX:
+    	case AM_WORDADR_SP:
+    		if ( bStrictMode && ((sym->value > 0xFFFF) || (sym->value < -0xFFFF))) {	// isn't this our space ?
+    			snprintf( sBuffer, sizeof(sBuffer), "%s %s", mne->name, str );
+    			asmerr( ERROR_ADDRESS_MUST_BE_LT_10000, false, sBuffer );
+    		}
+    		break;
+
+    	case AM_IMM8:
+    	case AM_BYTEADR:
+    	case AM_BYTEADRX:
+    	case AM_BYTEADRY:
+    	case AM_BYTEADR_SP:
+    	case AM_BYTEREL:
+    	case AM_INDBYTEX:
+    	case AM_INDBYTEY:
+    	case AM_INDBYTE:
+    		if (sym->value < -0xFF) {	// isn't this our space ?
+    			snprintf( sBuffer, sizeof(sBuffer), "negative %s %s", mne->name, str );
+    			asmerr( ERROR_ADDRESS_MUST_BE_LT_100, false, sBuffer );
+    		}
+    		break;
+    }
+
     opcode = mne->opcode[addrmode];
     opidx = 1 + (opcode > 0xFF);
     if (opidx == 2)
-- 
2.43.0


From c0ab078d3da9bce92640e76eb5d1f0ab5f3b5c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:58:12 +0000
Subject: [PATCH 53/83] fix: range of negative addresses and masks of bit
 instructions

Values below -255 were cut to a byte without an error.
---
 src/ops.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index bf135a6..aeac425 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -382,7 +382,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
     {
     case AM_BITMOD:
         sym = symbase->next;
-        if (!(sym->flags & SYM_UNKNOWN) && sym->value >= 0x100) {
+        if (!(sym->flags & SYM_UNKNOWN) && (sym->value >= 0x100 || sym->value < -0xFF)) {
             snprintf( sBuffer, sizeof(sBuffer), "unknown %s %ld", mne->name, sym->value);
             asmerr( ERROR_ADDRESS_MUST_BE_LT_100, false, sBuffer );
         }
@@ -409,7 +409,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
 
         sym = symbase->next;
 
-        if (!(sym->flags & SYM_UNKNOWN) && sym->value >= 0x100) {
+        if (!(sym->flags & SYM_UNKNOWN) && (sym->value >= 0x100 || sym->value < -0xFF)) {
             snprintf( sBuffer, sizeof(sBuffer), "%s %ld", mne->name, sym->value);
             asmerr( ERROR_ADDRESS_MUST_BE_LT_100, false, sBuffer );
         }
@@ -443,7 +443,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
     {
         if (sym)
         {
-            if (!(sym->flags & SYM_UNKNOWN) && sym->value >= 0x100) {
+            if (!(sym->flags & SYM_UNKNOWN) && (sym->value >= 0x100 || sym->value < -0xFF)) {
                 snprintf( sBuffer, sizeof(sBuffer), "unknown && > 256 %s %ld", mne->name, sym->value);
                 asmerr( ERROR_ADDRESS_MUST_BE_LT_100, false, sBuffer );
             }
-- 
2.43.0


From eb6fa9544b31242bd6d4b4da82d340696470f912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:58:22 +0000
Subject: [PATCH 54/83] fix: size of an INCBIN with skipped bytes

While the file was not read because of unresolved symbols, the bytes to
skip were counted too.  All labels behind it got a wrong address first and
needed another pass.
---
 src/ops.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ops.c b/src/ops.c
index aeac425..aee214d 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -612,6 +612,8 @@ v_incbin(char *str, MNEMONIC *dummy)
             /* optimize: don't actually read the file if not needed */
             fseek(binfile, 0, SEEK_END);
             Glen = ftell(binfile);
+            if (skip_bytes > 0)
+                Glen = (skip_bytes < Glen) ? Glen - skip_bytes : 0;
             generate();     /* does not access Gen[] if Redo is set */
         }
         else
-- 
2.43.0


From 9ac0bb6b0976581bf8f916da2c0390c344cf4439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:59:05 +0000
Subject: [PATCH 55/83] fix: sort symbols with large differences of their
 values

The difference did not fit into the result of the comparison.
---
 src/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 46ec0cd..d77ccb9 100644
--- a/src/main.c
+++ b/src/main.c
@@ -207,7 +207,7 @@ static int CompareAddress( const void *arg1, const void *arg2 )
     const SYMBOL *sym1 = *(SYMBOL * const *) arg1;
     const SYMBOL *sym2 = *(SYMBOL * const *) arg2;
 
-    return sym1->value - sym2->value;
+    return (sym1->value > sym2->value) - (sym1->value < sym2->value);
 }
 
 static int CompareOrder( const void *arg1, const void *arg2 )
@@ -217,7 +217,7 @@ static int CompareOrder( const void *arg1, const void *arg2 )
     const SYMBOL *sym1 = *(SYMBOL * const *) arg1;
     const SYMBOL *sym2 = *(SYMBOL * const *) arg2;
 
-    return sym1->order - sym2->order;
+    return (sym1->order > sym2->order) - (sym1->order < sym2->order);
 }
 
 static void ShowSymbols( FILE *file, int sortMode )
-- 
2.43.0


From 7484e3c483b0552660f6c741d82890edd5577780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:59:06 +0000
Subject: [PATCH 56/83] fix: order of the symbols in the list sorted by order
 in code

Symbols that are assigned after they were used, defined in a later pass or
defined on the command line were not in the order of the code.
---
 src/main.c | 9 ++++++++-
 src/ops.c  | 6 ++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index d77ccb9..4f8b8db 100644
--- a/src/main.c
+++ b/src/main.c
@@ -133,6 +133,8 @@ bool bRemoveOutBin  = false;
 
 int nMaxPasses = 10;
 
+static unsigned long CmdLineSymbols;    /* number of symbols defined by options */
+
 char     *Extstr;
 /*unsigned char     Listing = 1;*/
 
@@ -615,6 +617,7 @@ nofile:
     passbuffer_clear(ERRORBUF);
     passbuffer_clear(MSGBUF);
 
+    CmdLineSymbols = SymbolCount;
 
 nextpass:
 
@@ -628,7 +631,7 @@ nextpass:
     Localindex = Lastlocalindex = 0;
 
     Localdollarindex = Lastlocaldollarindex = 0;
-	SymbolCount = 0;
+	SymbolCount = CmdLineSymbols;
 
     /*_fmode = 0x8000;*/
     FI_temp = fopen(F_outfile, "wb");
@@ -979,7 +982,11 @@ void clearrefs(void)
 
     for (i = 0; i < SHASHSIZE; ++i)
         for (sym = SHash[i]; sym; sym = sym->next)
+        {
             sym->flags &= ~SYM_REF;
+            if (sym->order > CmdLineSymbols)
+                sym->order = 0;     /* set again in the next pass */
+        }
 }
 
 
diff --git a/src/ops.c b/src/ops.c
index aee214d..70fabcd 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1126,6 +1126,8 @@ v_equ(char *str, MNEMONIC *dummy)
     lab = findsymbol(Av[0], strlen(Av[0]));
     if (!lab)
         lab = CreateSymbol( Av[0], strlen(Av[0]), true );
+    if (!lab->order)
+        lab->order = ++SymbolCount;
     if (!(lab->flags & SYM_UNKNOWN))
     {
         if (sym->flags & SYM_UNKNOWN)
@@ -1184,6 +1186,8 @@ v_eqm(char *str, MNEMONIC *dummy)
     {
         lab = CreateSymbol( Av[0], len, true );
     }
+    if (!lab->order)
+        lab->order = ++SymbolCount;
     lab->value = 0;
     lab->flags = SYM_STRING | SYM_SET | SYM_MACRO;
     lab->string = strcpy(ckmalloc(strlen(str)+1), str);
@@ -1307,6 +1311,8 @@ void v_set(char *str, MNEMONIC *dummy)
     lab = findsymbol(Av[0], strlen(Av[0]));
     if (!lab)
         lab = CreateSymbol( Av[0], strlen(Av[0]), true );
+    if (!lab->order)
+        lab->order = ++SymbolCount;
     lab->value = sym->value;
     lab->flags = sym->flags & (SYM_UNKNOWN|SYM_STRING);
     lab->string = sym->string;
-- 
2.43.0


From 5b95d57b3354baf1ee28b72d86dbd221bc71772a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:59:07 +0000
Subject: [PATCH 57/83] fix: mark all symbols that are used in the symbol list

Symbols that are assigned after they were used and symbols defined with
EQM were missing the (R ) mark.
---
 src/exp.c | 1 +
 src/ops.c | 6 +++---
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/exp.c b/src/exp.c
index 55042a1..cfeddea 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -1029,6 +1029,7 @@ const char *pushsymbol(const char *str)
 
         if (sym->flags & SYM_MACRO)
         {
+            sym->flags |= SYM_REF|SYM_MASREF;
             macro = 1;
             sym = eval(sym->string, 0);
         }
diff --git a/src/ops.c b/src/ops.c
index 70fabcd..b368244 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1150,7 +1150,7 @@ v_equ(char *str, MNEMONIC *dummy)
     }
 
     lab->value = sym->value;
-    lab->flags = sym->flags & (SYM_UNKNOWN|SYM_STRING);
+    lab->flags = (lab->flags & SYM_MASREF) | (sym->flags & (SYM_UNKNOWN|SYM_STRING));
     lab->string = sym->string;
     sym->flags &= ~(SYM_STRING|SYM_MACRO);
 
@@ -1189,7 +1189,7 @@ v_eqm(char *str, MNEMONIC *dummy)
     if (!lab->order)
         lab->order = ++SymbolCount;
     lab->value = 0;
-    lab->flags = SYM_STRING | SYM_SET | SYM_MACRO;
+    lab->flags = (lab->flags & SYM_MASREF) | SYM_STRING | SYM_SET | SYM_MACRO;
     lab->string = strcpy(ckmalloc(strlen(str)+1), str);
 }
 
@@ -1314,7 +1314,7 @@ void v_set(char *str, MNEMONIC *dummy)
     if (!lab->order)
         lab->order = ++SymbolCount;
     lab->value = sym->value;
-    lab->flags = sym->flags & (SYM_UNKNOWN|SYM_STRING);
+    lab->flags = (lab->flags & SYM_MASREF) | (sym->flags & (SYM_UNKNOWN|SYM_STRING));
     lab->string = sym->string;
     sym->flags &= ~(SYM_STRING|SYM_MACRO);
     FreeSymbolList(sym);
-- 
2.43.0


From d45f84b9593c98a0d4d79f8327b72743d2125b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:20:44 +0000
Subject: [PATCH 58/83] fix: 65c02 zero page,relative instructions accepted
 other addressing modes

---
 src/exp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/exp.c b/src/exp.c
index cfeddea..787b2ce 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -459,7 +459,8 @@ SYMBOL *eval(const char *str, int wantmode)
             }
             else if (wantindex && cur->addrmode != AM_INDWORD && !((scr == 'x' || scr == 'y') && !IsAlphaNum( str[2] )) && (Processor == 16502))
             {
-                cur->addrmode = AM_BYTEREL;
+                if (cur->addrmode == 0)
+                    cur->addrmode = AM_BYTEREL;
                 SYMBOL *pNewSymbol = allocsymbol();
                 cur->next = pNewSymbol;
                 if (Argi != Argibase + 1)
-- 
2.43.0


From 9a9983a228a0ad2584c63d3160ef56f96a2627b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:20:45 +0000
Subject: [PATCH 59/83] fix: immediate operand with an index register was
 assembled as indexed

---
 src/exp.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/exp.c b/src/exp.c
index 787b2ce..96184fb 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -497,6 +497,13 @@ SYMBOL *eval(const char *str, int wantmode)
                    ++str;
 
             }
+            else if (wantindex && cur->addrmode == AM_IMM8 && (scr == 'x' || scr == 'y') && !IsAlphaNum(str[2]))
+            {
+                asmerr( ERROR_ILLEGAL_ADDRESSING_MODE, false, pLine );
+                ++Redo;
+                Redo_why |= REASON_MNEMONIC_NOT_RESOLVED;
+                ++str;
+            }
             else if (wantindex && scr == 'x' && !IsAlphaNum(str[2]))
             {
                 cur->addrmode = AM_0X;
-- 
2.43.0


From 7d0e5fc2872134b8256f71c02a5dd8a5c0480d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:37:28 +0000
Subject: [PATCH 60/83] fix: conflicting EQU went unnoticed when the first
 value was a forward reference

---
 src/ops.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ops.c b/src/ops.c
index b368244..250ccee 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1124,6 +1124,12 @@ v_equ(char *str, MNEMONIC *dummy)
 
 
     lab = findsymbol(Av[0], strlen(Av[0]));
+    if (lab && lab->order && (lab->flags & SYM_UNKNOWN) && !(sym->flags & SYM_UNKNOWN))
+    {
+        /* assigned before, to a value not known yet: compare them next time */
+        ++Redo;
+        Redo_why |= REASON_EQU_NOT_RESOLVED;
+    }
     if (!lab)
         lab = CreateSymbol( Av[0], strlen(Av[0]), true );
     if (!lab->order)
-- 
2.43.0


From ae83a85dc8be6b0b72ebbe57bee7e90da05dd97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:41:37 +0000
Subject: [PATCH 61/83] fix: label defined twice went unnoticed when one
 address was not known at first

---
 src/symbols.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/symbols.c b/src/symbols.c
index 08ebaea..660c223 100644
--- a/src/symbols.c
+++ b/src/symbols.c
@@ -183,6 +183,12 @@ void programlabel()
 
     if ((sym = findsymbol(str, len)) != NULL)
     {
+		if (sym->order && ((sym->flags | cflags) & SYM_UNKNOWN))
+		{
+		  // defined before, and not yet known whether at the same address
+		  ++Redo;
+		  Redo_why |= REASON_FORWARD_REFERENCE;
+		}
 		if (!sym->order)
 		  sym->order = ++SymbolCount; // was a forwarded, referenced label
         if ((sym->flags & (SYM_UNKNOWN|SYM_REF)) == (SYM_UNKNOWN|SYM_REF))
-- 
2.43.0


From 5d5f32422d0b2cf05e83cb8d4b1ea9b856ce006f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:44:30 +0000
Subject: [PATCH 62/83] fix: REPEAT count below zero only because of an unknown
 symbol was taken as final

---
 src/ops.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ops.c b/src/ops.c
index 250ccee..13620bf 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1560,7 +1560,7 @@ void v_repeat(char *str, MNEMONIC *dummy)
     }
     programlabel();
     sym = eval(str, 0);
-    if (sym->value == 0) {
+    if (sym->value == 0 || (sym->value < 0 && (sym->flags & SYM_UNKNOWN))) {
         if (sym->flags & SYM_UNKNOWN) {
             ++Redo;
             Redo_why |= REASON_REPEAT_NOT_RESOLVED;
-- 
2.43.0


From d706a56164bc5b06b950b746e773552fa5ce4950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:49:48 +0000
Subject: [PATCH 63/83] fix: unclosed strings and missing macro arguments in
 skipped lines were reported as errors

---
 src/main.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 4f8b8db..a38f234 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1169,7 +1169,8 @@ static const char *cleanup(char *buf, bool bDisable)
             }
             if (*str != '\"')
             {
-                asmerr( ERROR_SYNTAX_ERROR, false, buf );
+                if (Ifstack->xtrue && Ifstack->acctrue)
+                    asmerr( ERROR_SYNTAX_ERROR, false, buf );
                 --str;
             }
             break;
@@ -1229,7 +1230,8 @@ static const char *cleanup(char *buf, bool bDisable)
             }
             else
             {
-                asmerr( ERROR_NOT_ENOUGH_ARGUMENTS_PASSED_TO_MACRO, false, NULL );
+                if (Ifstack->xtrue && Ifstack->acctrue)
+                    asmerr( ERROR_NOT_ENOUGH_ARGUMENTS_PASSED_TO_MACRO, false, NULL );
                 goto br2;
             }
             break;
-- 
2.43.0


From 4a7686e9711788360303b6625504bec7a3de1b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:49:49 +0000
Subject: [PATCH 64/83] fix: label arguments were evaluated in skipped lines
 and in macro definitions

---
 src/main.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/main.c b/src/main.c
index a38f234..b728a0d 100644
--- a/src/main.c
+++ b/src/main.c
@@ -48,7 +48,7 @@ static const char dasm_id[] = DASM_ID;
 static const char *cleanup(char *buf, bool bDisable);
 static bool readline(char *buf);
 
-MNEMONIC *parse(char *buf);
+MNEMONIC *parse(char *buf, bool bLabel);
 void panic(const char *str);
 MNEMONIC *findmne(char *str);
 void clearsegs(void);
@@ -682,7 +682,7 @@ nextpass:
                 ++pIncfile->lineno;
             comment = cleanup(buf, false);
             Glen = 0;       /* nothing to list from this line yet */
-            mne = parse(buf);
+            mne = parse(buf, Ifstack->xtrue && Ifstack->acctrue);
 
             if (Av[1][0])
             {
@@ -1384,8 +1384,9 @@ void rmnode(void **base, int bytes)
 
 /*
 *  Parse into three arguments: Av[0], Av[1], Av[2]
+*  Label arguments are only evaluated if bLabel is set
 */
-MNEMONIC *parse(char *buf)
+MNEMONIC *parse(char *buf, bool bLabel)
 {
     int i, j;
     MNEMONIC *mne = NULL;
@@ -1418,7 +1419,7 @@ MNEMONIC *parse(char *buf)
             break;
         }
 
-        if (buf[i] == ',')  // we have label arguments
+        if (buf[i] == ',' && bLabel)  // we have label arguments
         {
             if(buf[i+1]=='"') // is it a string constant?
             {
@@ -1624,7 +1625,7 @@ void v_macro(char *str, MNEMONIC *dummy)
 
         comment = cleanup(buf, true);
 
-        mne = parse(buf);
+        mne = parse(buf, false);
         if (Av[1][0]) {
             if (mne != NULL) {	// for some reason I got a segfault while accessing mne->flags, should not happen but gdb said it was here
             	if (mne->flags & MF_ENDM) {
-- 
2.43.0


From 7b16b490c32ea29ee2fc19f5fc0475533e7055cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:08:44 +0000
Subject: [PATCH 65/83] fix: take another pass when a name argument or SETSYM
 symbol is not known yet

Label arguments, SET with evaluated name arguments and SETSYM are skipped
while a symbol they need is unknown. Nothing asked for another pass, so the
assembly could end with the assignment or label left out.
---
 src/main.c | 6 +++++-
 src/ops.c  | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index b728a0d..666df87 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1460,7 +1460,11 @@ MNEMONIC *parse(char *buf, bool bLabel)
                 if(symarg)
                 {
                     if (symarg->flags & SYM_UNKNOWN) // one of the arguments isn't defined yet
-			labelundefined++; // ensure the label we're creating doesn't get used
+                    {
+                        labelundefined++; // ensure the label we're creating doesn't get used
+                        ++Redo;
+                        Redo_why |= REASON_FORWARD_REFERENCE;
+                    }
                     else
                     {
                         snprintf(tempval,256,"%d",(unsigned)symarg->value);
diff --git a/src/ops.c b/src/ops.c
index 13620bf..7079030 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1305,6 +1305,8 @@ void v_set(char *str, MNEMONIC *dummy)
         dynamicname[j] = 0;
         if (setundefined) // not all of the arguments are defined yet, so skip this SET
         {
+            ++Redo;
+            Redo_why |= REASON_FORWARD_REFERENCE;
             free(dynamicname);
             return;
         }
@@ -1341,6 +1343,8 @@ void v_setsym(char *symstr, MNEMONIC *dummy)
     sym = eval(symstr,0);
     if (sym->flags & SYM_UNKNOWN)
     {
+        ++Redo;
+        Redo_why |= REASON_FORWARD_REFERENCE;
         FreeSymbolList(sym);
         return;
     }
-- 
2.43.0


From 82d344a7baeb0b5d59b7c1737567daf34b6c87cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:08:45 +0000
Subject: [PATCH 66/83] fix: do not create a symbol without a name

An assignment line without a symbol name, or whose name arguments are not
known yet, assigned to a symbol with an empty name that then appeared in the
symbol list.
---
 src/ops.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/ops.c b/src/ops.c
index 7079030..fc56712 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1123,6 +1123,12 @@ v_equ(char *str, MNEMONIC *dummy)
     }
 
 
+    if (*Av[0] == 0)    /* nothing to assign to */
+    {
+        FreeSymbolList(sym);
+        return;
+    }
+
     lab = findsymbol(Av[0], strlen(Av[0]));
     if (lab && lab->order && (lab->flags & SYM_UNKNOWN) && !(sym->flags & SYM_UNKNOWN))
     {
@@ -1184,6 +1190,9 @@ v_eqm(char *str, MNEMONIC *dummy)
     SYMBOL *lab;
     int len = strlen(Av[0]);
 
+    if (len == 0)       /* nothing to assign to */
+        return;
+
     if ((lab = findsymbol(Av[0], len)) != NULL) {
         if (lab->flags & SYM_STRING)
             free(lab->string);
@@ -1316,6 +1325,12 @@ void v_set(char *str, MNEMONIC *dummy)
     else // traditional SET behavior
         sym = eval(str, 0);
 
+    if (*Av[0] == 0)    /* nothing to assign to */
+    {
+        FreeSymbolList(sym);
+        return;
+    }
+
     lab = findsymbol(Av[0], strlen(Av[0]));
     if (!lab)
         lab = CreateSymbol( Av[0], strlen(Av[0]), true );
-- 
2.43.0


From fcbf85e6aa952437c1465f8f451b2e7868993e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:12:02 +0000
Subject: [PATCH 67/83] fix: accept an extension after an operation with a
 leading dot

The manual allows a dot before every directive and mnemonic, but with one in
front the extension was not split off, so .dc.b or .lda.w was rejected as an
unknown mnemonic.
---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 666df87..20ad2de 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1287,7 +1287,7 @@ void findext(char *str)
     Extstr = NULL;
 
     if (str[0] == '.') {    /* Allow .OP for OP */
-        return;
+        ++str;
     }
 
     while (*str && *str != '.')
-- 
2.43.0


From bb3734c0c271cbe0df13fb38cfa96d65c699ba42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:13:13 +0000
Subject: [PATCH 68/83] fix: let a multi-line comment start on the line where
 another one ends

The end of the earlier comment is moved behind the rest of the line, where
its end mark closed the comment starting there.
---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 20ad2de..efe7ded 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1097,7 +1097,7 @@ static const char *cleanup(char *buf, bool bDisable)
                     *tmpc=0;
                 tmpc++;
             }
-	    snprintf(tempbuf,MAXLINE,"%s;*/%s",mlend+2,buf); // put the comment at the end of the line
+	    snprintf(tempbuf,MAXLINE,"%s;* %s",mlend+2,buf); // put the comment at the end of the line, without its end mark
             strncpy(buf,tempbuf,MAXLINE);
             return(cleanup(buf,bDisable)); // repeat for any single-line comments that may follow
         }
-- 
2.43.0


From 6d7ecd04e0dde84358b5484460802ed8f4149172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:14:06 +0000
Subject: [PATCH 69/83] fix: keep a comment opened on a macro call or INCLUDE
 line out of the inserted text

A block comment that starts on such a line and ends on a later one swallowed
the macro's lines or the included file.
---
 src/asm.h  | 2 ++
 src/main.c | 3 +++
 src/ops.c  | 5 +++++
 3 files changed, 10 insertions(+)

diff --git a/src/asm.h b/src/asm.h
index 012cd31..212855f 100644
--- a/src/asm.h
+++ b/src/asm.h
@@ -286,6 +286,7 @@ INCFILE {
     FILE    *fi;    /*      file handle            */
     unsigned long   lineno; /*      line number in file        */
     unsigned char   flags;  /*      flags (macro)         */
+    int     saveml; /*      multi-line comment open where it was called */
 
     /*    Only if Macro    */
 
@@ -399,6 +400,7 @@ extern unsigned char    Fisclear;
 extern unsigned long    Plab, Pflags;
 extern char    Inclevel;
 extern char    ListMode;
+extern int      mlflag;
 extern unsigned long    Processor;
 
 /*extern unsigned int _fmode;*/
diff --git a/src/main.c b/src/main.c
index efe7ded..3577910 100644
--- a/src/main.c
+++ b/src/main.c
@@ -717,6 +717,7 @@ nextpass:
         fclose( pIncfile->fi );
         free( pIncfile->name );
         --Inclevel;
+        mlflag |= pIncfile->saveml;
         rmnode((void **)&pIncfile, sizeof(INCFILE));
 
         if ( pIncfile )
@@ -1700,6 +1701,8 @@ void pushinclude(char *str)
         inf->name    = strcpy(ckmalloc(strlen(str)+1), str);
         inf->fi = fi;
         inf->lineno = 0;
+        inf->saveml = mlflag;
+        mlflag = 0;
         pIncfile = inf;
         return;
     }
diff --git a/src/ops.c b/src/ops.c
index fc56712..246ae6c 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1425,6 +1425,9 @@ v_execmac(char *str, MACRO *mac)
 
     inc->savedolidx = Localdollarindex;
 
+    inc->saveml = mlflag;
+    mlflag = 0;
+
     inc->strlist = mac->strlist;
     inc->args	  = base;
     pIncfile = inc;
@@ -1471,6 +1474,8 @@ v_endm(char *str, MNEMONIC *dummy)
 
         Localdollarindex = inc->savedolidx;
 
+        mlflag = inc->saveml;
+
         pIncfile = inc->next;
         free(inc);
         return;
-- 
2.43.0


From 7bafed32cadb99245a8fba2e6efd48e3433fc95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:14:07 +0000
Subject: [PATCH 70/83] fix: go back to the comment state of the REPEAT line
 when looping

A block comment starting on the REPEAT line made later rounds fail, and one
starting on the REPEND line swallowed the body of the next round.
---
 src/asm.h | 1 +
 src/ops.c | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/asm.h b/src/asm.h
index 212855f..248bdfd 100644
--- a/src/asm.h
+++ b/src/asm.h
@@ -306,6 +306,7 @@ REPLOOP {
     unsigned long   lineno; /*      line number of line before  */
     INCFILE *file;  /*      which include file are we in*/
     unsigned char   flags;
+    int     saveml; /*      multi-line comment open at the top of repeat */
 };
 
 #define IFF_UNKNOWN 0x01    /*      value unknown        */
diff --git a/src/ops.c b/src/ops.c
index 246ae6c..076bd0d 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1617,6 +1617,7 @@ void v_repeat(char *str, MNEMONIC *dummy)
     else
         rp->seek = ftell(pIncfile->fi);
     rp->lineno = pIncfile->lineno;
+    rp->saveml = mlflag;
     rp->count = sym->value;
     if ((rp->flags = sym->flags) != 0) {
         ++Redo;
@@ -1641,6 +1642,7 @@ v_repend(char *str, MNEMONIC *dummy)
             else
                 fseek(pIncfile->fi,Reploop->seek,0);
             pIncfile->lineno = Reploop->lineno;
+            mlflag = Reploop->saveml;
         }
         else
         {
-- 
2.43.0


From 03c681654f927b01e48c23e5e213712aefa10611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:36:42 +0000
Subject: [PATCH 71/83] fix: leave out a reference to a macro argument that was
 not passed

---
 src/main.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.c b/src/main.c
index 3577910..8041936 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1233,6 +1233,7 @@ static const char *cleanup(char *buf, bool bDisable)
             {
                 if (Ifstack->xtrue && Ifstack->acctrue)
                     asmerr( ERROR_NOT_ENOUGH_ARGUMENTS_PASSED_TO_MACRO, false, NULL );
+                str += add;     /*  leave it out, a macro called here would ask for it again   */
                 goto br2;
             }
             break;
-- 
2.43.0


From fb9ab51e2344b85ce4171af3e28f28c830b66c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:36:43 +0000
Subject: [PATCH 72/83] fix: report a missing EQM label of DV as an error of
 its line

---
 src/ops.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index 076bd0d..c987400 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -775,7 +775,7 @@ v_dc(char *str, MNEMONIC *mne)
         tmp = findsymbol(str, i);
         str += i;
         if (tmp == NULL) {
-            puts("EQM label not found");
+            asmerr( ERROR_SYNTAX_ERROR, false, "EQM label not found" );
             ++Redo;
             Redo_why |= REASON_DV_NOT_RESOLVED_PROBABLY;
             return;
@@ -785,7 +785,7 @@ v_dc(char *str, MNEMONIC *mne)
         }
         else
         {
-            puts("must specify EQM label for DV");
+            asmerr( ERROR_SYNTAX_ERROR, false, "must specify EQM label for DV" );
             ++Redo;
             Redo_why |= REASON_DV_NOT_RESOLVED_PROBABLY;
             return;
-- 
2.43.0


From 7522d493599df81fee3e936da4ca34a14adb2446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:49:25 +0000
Subject: [PATCH 73/83] fix: limit the nesting of INCLUDE

---
 src/asm.h     | 3 ++-
 src/globals.c | 2 +-
 src/main.c    | 3 +++
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/asm.h b/src/asm.h
index 248bdfd..8a38629 100644
--- a/src/asm.h
+++ b/src/asm.h
@@ -173,6 +173,7 @@ typedef struct ERRORSTRUCT
 #define MHASHAND    (MHASHSIZE -1)
 #define ALLOCSIZE   16384
 #define MAXMACLEVEL 32
+#define MAXINCLEVEL 200
 #define TAB        9
 
     /* 
@@ -399,7 +400,7 @@ extern FILE    *FI_listfile;
 extern FILE    *FI_temp;
 extern unsigned char    Fisclear;
 extern unsigned long    Plab, Pflags;
-extern char    Inclevel;
+extern int     Inclevel;
 extern char    ListMode;
 extern int      mlflag;
 extern unsigned long    Processor;
diff --git a/src/globals.c b/src/globals.c
index 0ba883b..0aba98a 100644
--- a/src/globals.c
+++ b/src/globals.c
@@ -40,7 +40,7 @@ char	*Av[256];	    /*	up to 256 arguments */
 char	Avbuf[AVBUFSIZE];
 unsigned char	MsbOrder = 1;
 int	Mnext;
-char	Inclevel;
+int	Inclevel;
 unsigned int	Mlevel;
 unsigned long	Localindex;	   /*  to generate local variables */
 unsigned long	Lastlocalindex;
diff --git a/src/main.c b/src/main.c
index 8041936..ead4ed0 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1689,6 +1689,9 @@ void pushinclude(char *str)
     INCFILE *inf;
     FILE *fi;
 
+    if (Inclevel == MAXINCLEVEL)
+        asmerr( ERROR_RECURSION_TOO_DEEP, true, "INCLUDE" );
+
     if ((fi = pfopen(str, "rb")) != NULL) {
         if (F_verbose > 1 && F_verbose != 5 )
             printf("%.*s Including file \"%s\"\n", Inclevel*4, "", str);
-- 
2.43.0


From 55d8f5b3ff6e31df366703d04eb190e43e78d210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:49:26 +0000
Subject: [PATCH 74/83] fix: stop ftohex when its input cannot be read

---
 src/ftohex.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ftohex.c b/src/ftohex.c
index 2032a77..02377f7 100644
--- a/src/ftohex.c
+++ b/src/ftohex.c
@@ -161,6 +161,8 @@ unsigned int getwlh(FILE *in)
     int lo, hi;
 
     lo = getc(in);
+    if (ferror(in))
+	exiterr("unable to read input file");
     if (lo == EOF)
 	return 0;
     hi = getc(in);
-- 
2.43.0


From e695173cf35e1a944625423d739a6f07a942404d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:41 +0000
Subject: [PATCH 75/83] fix: let the 68HC11 register file assemble

FLASH_END in machines/68hc11/register.asm contained the visible form of a
tab, so every 68HC11 header failed with an unknown mnemonic.
---
 machines/68hc11/register.asm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machines/68hc11/register.asm b/machines/68hc11/register.asm
index 06efb21..410226c 100644
--- a/machines/68hc11/register.asm
+++ b/machines/68hc11/register.asm
@@ -1,7 +1,7 @@
 
 
 RAM_END			.EQU    (DOWNLOAD_SIZE-1)
-FLASH_END		.EQU<-->(FLASH_START + FLASH_SIZE)
+FLASH_END		.EQU	(FLASH_START + FLASH_SIZE)
 
 
 ;~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~;
-- 
2.43.0


From 7575b3582174b054be5e8d53b7f4e283dd6fa909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:42 +0000
Subject: [PATCH 76/83] fix: close the and_bits macro of the 68HC908 macros

It ended with a second .macro line, so every 68HC908 header was rejected
with a premature end of file.
---
 machines/68hc908/macros.asm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machines/68hc908/macros.asm b/machines/68hc908/macros.asm
index c126b10..e63d232 100644
--- a/machines/68hc908/macros.asm
+++ b/machines/68hc908/macros.asm
@@ -68,7 +68,7 @@ _bLoop$:
 		ldA.8  {1}
 		and    {2}
 		stA.8  {1}
-	.macro
+	.endm
 
 
 	.macro or_bits		; {reg_addr},{bitmask}
-- 
2.43.0


From aaaa5e85f857b8c643227f505380d1e55a5c02a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:43 +0000
Subject: [PATCH 77/83] fix: include the existing register file in
 mc68hc908jk1.asm

The file it named does not exist. The JK1 and JK3 share their registers.
---
 machines/68hc908/mc68hc908jk1.asm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machines/68hc908/mc68hc908jk1.asm b/machines/68hc908/mc68hc908jk1.asm
index c9b90eb..4ee0027 100644
--- a/machines/68hc908/mc68hc908jk1.asm
+++ b/machines/68hc908/mc68hc908jk1.asm
@@ -18,7 +18,7 @@ FLASH_START	.EQU	$F600
 FLASH_SIZE	.EQU	1536
 	.ENDIF
 
-	#include	"reg68hc908jk1.asm"
+	#include	"reg68hc908jk3.asm"
 ;
 ;  Register Section Bits FLCR
 ;
-- 
2.43.0


From 37dacc4cdadc9868e77951c242d640aaeaf612d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:44 +0000
Subject: [PATCH 78/83] fix: define the deprecated Channel F names wherever
 ves.h is included

INCLUDE_DEPRECATED was a label. Before the first ORG a label has no value,
so the usual inclusion at the top left all deprecated names undefined.
---
 machines/channel-f/ves.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machines/channel-f/ves.h b/machines/channel-f/ves.h
index a836482..708927a 100644
--- a/machines/channel-f/ves.h
+++ b/machines/channel-f/ves.h
@@ -33,7 +33,7 @@ VERSION_VES		= 101
 
 
 
-INCLUDE_DEPRECATED                 ; remove to DISABLE deprecated equates
+INCLUDE_DEPRECATED = 1             ; remove to DISABLE deprecated equates
 
 
 ;-------------------------------------------------------------------------------
-- 
2.43.0


From 4e9d945789f3ad9f96e56281f8f88d331f55beaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:10:32 +0000
Subject: [PATCH 79/83] fix: let the Channel F macros be defined

MAC and ENDM stood in the first column of macro.h, where they are taken
as labels, so including the file failed.
---
 machines/channel-f/macro.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/machines/channel-f/macro.h b/machines/channel-f/macro.h
index 0c52353..bea54df 100644
--- a/machines/channel-f/macro.h
+++ b/machines/channel-f/macro.h
@@ -34,10 +34,10 @@ VERSION_MACRO	= 101
 ; then inserts the NOP that takes up the next byte, which places
 ; the Channel F at the cartridge entry point, $802.
 
-MAC CARTRIDGE_START
+        MAC CARTRIDGE_START
 CartridgeStart: db $55                 ; valid cart indicator
                 NOP                      ; unused byte
-ENDM
+        ENDM
 
 ;-------------------------
 ; PROMPTS_NO_T
@@ -46,7 +46,7 @@ ENDM
 ; but this code doesn't have a "T?" prompt, so it's useful in games that
 ; don't have time limits or settings.
 
-MAC PROMPTS_NOT
+        MAC PROMPTS_NOT
 prompts SUBROUTINE
         LR   K,P                 ; 
                 PI   pushk               ; 
@@ -71,7 +71,7 @@ prompts SUBROUTINE
                 as 4 ;add the mode to the game #
                 LR   (IS),A              ; 
                 BF   $0,.prompts2        ; 
-ENDM
+        ENDM
 
 
 
-- 
2.43.0


From 1154a8298f8d881292bc2ad83917bf3b3ccf03b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:10:48 +0000
Subject: [PATCH 80/83] fix: stop ftohex when a raw file cannot be read

For format 3 a directory was converted to an empty file with success.
---
 src/ftohex.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ftohex.c b/src/ftohex.c
index 02377f7..b09d65e 100644
--- a/src/ftohex.c
+++ b/src/ftohex.c
@@ -105,6 +105,10 @@ convert(int format, FILE *in, FILE *out)
 
     if (format < 3)
     org = getwlh(in);
+    else
+    ungetc(getc(in), in);	/* an unreadable file shows only when read */
+    if (ferror(in))
+	exiterr("unable to read input file");
     if (feof(in)) {
 	len = 0;		/* dasm writes no header if there is no data */
     } else if (format == 2) {
-- 
2.43.0


From b98b6a954eec1bb0156aadac33581ca0d501891e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:01:51 +0000
Subject: [PATCH 81/83] fix: take [x+1] for an indexed operand only in
 instructions

On the 68705, 68HC11 and 68HC908, an expression that begins with [x+, [y+ or
[sp+ was read as the UCASM notation of an indexed operand everywhere, so that
DC, assignments and immediate operands silently lost the value of the symbol.
---
 src/exp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/exp.c b/src/exp.c
index 96184fb..ab052e5 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -337,7 +337,8 @@ SYMBOL *eval(const char *str, int wantmode)
         case '[':   /*  eventually an argument      */
 	    ucasm_indexed_notation = false;
 
-	    if ((((((str[1]|0x20) == 'x') || ((str[1]|0x20) == 'y')) && (str[2] == '+')) ||     // X- or Y-indexed address mode
+	    if (wantindex && cur->addrmode != AM_IMM8 &&
+	        (((((str[1]|0x20) == 'x') || ((str[1]|0x20) == 'y')) && (str[2] == '+')) ||     // X- or Y-indexed address mode
 	        (((str[1]|0x20) == 's') && ((str[2]|0x20) == 'p') && (str[3] == '+'))) &&	// SP-indexed address mode
 		((Processor == 68705) || (Processor == 6811) || (Processor == 68908)))
 	    {
-- 
2.43.0


From 82a98188ebf6bd63442784d04ed4d5d75e6dba06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:30:20 +0000
Subject: [PATCH 82/83] fix: reject empty brackets in an expression instead of
 printing a message and going on

---
 src/exp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exp.c b/src/exp.c
index ab052e5..a821f03 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -417,7 +417,7 @@ SYMBOL *eval(const char *str, int wantmode)
 	    } else {
             if (Argi == Argibase)
             {
-                puts("']' error, no arg on stack");
+                asmerr( ERROR_SYNTAX_ERROR, false, pLine );
                 break;
             }
             }
-- 
2.43.0


From 8b2ffeb73ac6f88c9f14b1b74c9293d7ca0b0835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:30:22 +0000
Subject: [PATCH 83/83] fix: do not sign-extend character constants above 127

---
 src/exp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exp.c b/src/exp.c
index a821f03..502c721 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -924,7 +924,7 @@ void op_or(long v1, long v2, int f1, int f2)
 const char *pushchar(const char *str)
 {
     if (*str) {
-        stackarg((long)*str, 0, NULL);
+        stackarg((long)(unsigned char)*str, 0, NULL);
         ++str;
     } else {
         stackarg((long)' ', 0, NULL);
-- 
2.43.0

