From e3c0056cd0f14a9a48a90bd54de7ada5b84804bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:09 +0000
Subject: [PATCH 001/145] fix: multiply by constant zero gives zero

---
 scc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 9f267b3..712d4fa 100644
--- a/scc.c
+++ b/scc.c
@@ -1273,7 +1273,7 @@ void EmitMovRImm(int r, int val)
 
 void EmitScaleAx(int Scale)
 {
-    if (Scale & (Scale-1)) {
+    if (!Scale || (Scale & (Scale-1))) {
         EmitMovRImm(R_CX, Scale);
         Output2Bytes(0xF7, MODRM_REG|(4<<3)|R_CX); // MUL CX
     } else {
-- 
2.43.0


From 583ee586b6f36a0ca0a4791d52972eecb708b032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:13 +0000
Subject: [PATCH 002/145] fix: signed division by a power of two rounds towards
 zero

---
 scc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 712d4fa..1191e9a 100644
--- a/scc.c
+++ b/scc.c
@@ -2239,7 +2239,10 @@ void DoRhsConstBinOp(int Op)
     case '+': EmitAddRegConst(R_AX, CurrentVal); return;
     case '-': EmitAddRegConst(R_AX, -CurrentVal); return;
     case '*': EmitScaleAx(CurrentVal); return;
-    case '/': EmitDivAxConst(CurrentVal); return;
+    case '/':
+        if (!IsUnsignedOp) break; // A shift would round towards minus infinity
+        EmitDivAxConst(CurrentVal);
+        return;
     }
 
     int Inst = GetSimpleALU(Op);
-- 
2.43.0


From dd0c1f6ad681c5fc9d4641eb6e681f5c686bddf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:03 +0000
Subject: [PATCH 003/145] fix: only skip the zero test when ZF reflects the
 value

---
 scc.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/scc.c b/scc.c
index 1191e9a..3e1cb8e 100644
--- a/scc.c
+++ b/scc.c
@@ -1139,6 +1139,7 @@ void EmitLocalLabel(int l)
 {
     if (l >= LocalLabelCounter || Labels[l].Addr) Fail();
     FlushSpAdj();
+    LastZFInst = 0; // Other paths to this label may have left ZF in any state
     IsDeadCode = 0;
     DoFixups(Labels[l].Ref, 1);
     Labels[l].Addr = CodeAddress;
@@ -2236,8 +2237,13 @@ int DoRhsLvalBinOp(int Op)
 void DoRhsConstBinOp(int Op)
 {
     switch (Op) {
-    case '+': EmitAddRegConst(R_AX, CurrentVal); return;
-    case '-': EmitAddRegConst(R_AX, -CurrentVal); return;
+    case '-':
+        CurrentVal = -CurrentVal;
+        // Fall through
+    case '+':
+        if (!CurrentVal) break; // Must output something that sets ZF
+        EmitAddRegConst(R_AX, CurrentVal);
+        return;
     case '*': EmitScaleAx(CurrentVal); return;
     case '/':
         if (!IsUnsignedOp) break; // A shift would round towards minus infinity
@@ -2548,7 +2554,6 @@ void ParseExpr1(int OuterPrecedence)
                 } else {
                     DoBinOp(Op, R_CX);
                 }
-                LastZFInst = CodeAddress;
             } else if (CurrentType == (VT_INT|VT_LOCLIT)) {
                 // Constant assignment
                 if (!LhsLoc) {
@@ -2626,11 +2631,12 @@ DoNormal:
             DoBinOp(Op, R);
         }
 BinOpOut:
+        if (!IsDeadCode && GetSimpleALU(Op))
+            LastZFInst = CodeAddress; // Multiplication, division and shifts don't (always) set ZF from the result
         if (Op == '-' && LhsPointeeSize) {
             EmitDivAxConst(LhsPointeeSize);
             CurrentType = VT_INT;
         }
-        LastZFInst = CodeAddress;
     } while (OperatorPrecedence <= OuterPrecedence);
 }
 
-- 
2.43.0


From de7724453888b577080850a52cf2c48cc8c47e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:07 +0000
Subject: [PATCH 004/145] fix: conditional operator with comparisons as
 operands

---
 scc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 3e1cb8e..7ce3416 100644
--- a/scc.c
+++ b/scc.c
@@ -2324,7 +2324,7 @@ void ForceToReg(void)
         LvalToRval();
 
     const int Loc = CurrentType & VT_LOCMASK;
-    if (!Loc) return;
+    if (!Loc && CurrentType != VT_BOOL) return;
     if (Loc == VT_LOCGLOB || Loc == VT_LOCOFF) {
         EmitLoadAddr(R_AX, Loc, CurrentVal);
         CurrentType &= ~VT_LOCMASK;
-- 
2.43.0


From 7f2053bef1dce5bc95feed125e5c1eab8e89f97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:12 +0000
Subject: [PATCH 005/145] fix: load constant operands of && and ||

---
 scc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 7ce3416..3b3236d 100644
--- a/scc.c
+++ b/scc.c
@@ -1990,7 +1990,7 @@ void ParseCastExpression(void);
 
 void ToBool(void)
 {
-    LvalToRval();
+    GetVal();
     if (CodeAddress != LastZFInst)
         Output2Bytes(I_AND|1, MODRM_REG); // AND AX, AX
     CurrentType = VT_BOOL;
-- 
2.43.0


From 9eedd4730cce00e352e32c4347d3198fc850cf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:15 +0000
Subject: [PATCH 006/145] fix: do-while with a non-zero constant condition
 loops

---
 scc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 3b3236d..d418666 100644
--- a/scc.c
+++ b/scc.c
@@ -2300,7 +2300,7 @@ void DoCondHasExpr(int Label, int Forward) // forward => jump if label is false
 {
     if (CurrentType == (VT_LOCLIT|VT_INT)) {
         // Constant condition
-        if (!CurrentVal && Forward)
+        if (!CurrentVal == Forward)
             EmitJmp(Label);
         return;
     }
-- 
2.43.0


From 80758374058f12608ec85cc11345be6a6963a9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:44 +0000
Subject: [PATCH 007/145] fix: prefix ++/-- through a pointer keeps the
 address, element sizes above 127 are not sign extended

---
 scc.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/scc.c b/scc.c
index d418666..c00d28f 100644
--- a/scc.c
+++ b/scc.c
@@ -1576,11 +1576,14 @@ void DoIncDecOp(int Op, int Post)
     Op = Op == TOK_MINUSMINUS;
 
     if (Size > 1) {
-        EmitModrm(I_ALU_RM16_IMM8, Op*(I_SUB>>3), Loc, CurrentVal);
-        Output1Byte(Size);
-        return;
+        EmitModrm(I_ALU_RM16_IMM16, Op*(I_SUB>>3), Loc, CurrentVal);
+        OutputWord(Size);
+    } else {
+        EmitModrm(0xFE|WordOp, Op, Loc, CurrentVal);
     }
-    EmitModrm(0xFE|WordOp, Op, Loc, CurrentVal);
+
+    if (!Loc && !Post)
+        Output1Byte(I_XCHG_AX|R_SI); // The result is an l-value, get its address back
 }
 
 struct VarDecl* AddVarDeclScope(int Scope, int Id)
-- 
2.43.0


From 218e5ddd49e1a1be56208f685aa37349c18e7813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:11 +0000
Subject: [PATCH 008/145] fix: unsigned operands make the result unsigned,
 shifts follow their left operand

---
 scc.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index c00d28f..2cd6654 100644
--- a/scc.c
+++ b/scc.c
@@ -2496,7 +2496,8 @@ void ParseExpr1(int OuterPrecedence)
             continue;
         }
 
-        IsUnsignedOp = LhsType == (VT_UNSIGNED|VT_INT) || (CurrentType&(VT_UNSIGNED|VT_PTRMASK|VT_BASEMASK)) == (VT_UNSIGNED|VT_INT);
+        // The signedness of a shift is that of its left operand
+        IsUnsignedOp = LhsType == (VT_UNSIGNED|VT_INT) || ((CurrentType&(VT_UNSIGNED|VT_PTRMASK|VT_BASEMASK)) == (VT_UNSIGNED|VT_INT) && (Op|1) != TOK_RSH);
 
         if (Prec == PREC_ASSIGN) {
             HandleLhsLvalLoc(LhsLoc);
@@ -2639,6 +2640,10 @@ BinOpOut:
         if (Op == '-' && LhsPointeeSize) {
             EmitDivAxConst(LhsPointeeSize);
             CurrentType = VT_INT;
+        } else if ((CurrentType&~VT_UNSIGNED) == VT_INT) {
+            CurrentType = VT_INT;
+            if (IsUnsignedOp)
+                CurrentType = VT_INT|VT_UNSIGNED;
         }
     } while (OperatorPrecedence <= OuterPrecedence);
 }
-- 
2.43.0


From 4a400ffbc0e48c17c215ed8e6dc0bdc97d4bd6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:19 +0000
Subject: [PATCH 009/145] fix: ?: with operands of different signedness or a
 null pointer constant

---
 scc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 2cd6654..5bee1a3 100644
--- a/scc.c
+++ b/scc.c
@@ -2381,13 +2381,16 @@ void HandleCondOp(void)
     // This is certainly the case if only one side is an lvalue
     // or if the types are "too different".
     int TypeDiff = LhsType ^ CurrentType;
-    if ((TypeDiff & VT_LVAL) || ((TypeDiff & VT_BASEMASK) && !(CurrentType & VT_PTRMASK))) {
+    if ((TypeDiff & VT_LVAL) || ((TypeDiff & (VT_BASEMASK|VT_UNSIGNED)) && !(CurrentType & VT_PTRMASK))) {
         const int RealEnd = MakeLabel();
         LvalToRval();
+        TypeDiff = CurrentType;
         EmitJmp(RealEnd);
         EmitLocalLabel(EndLabel);
         CurrentType = LhsType;
         LvalToRval();
+        if (TypeDiff & (VT_UNSIGNED|VT_PTRMASK))
+            CurrentType = TypeDiff; // Unsigned/pointer if either side is
         EmitLocalLabel(RealEnd);
     } else {
         EmitLocalLabel(EndLabel);
-- 
2.43.0


From b51a33947dcc76e962894641062c9972d3f9bbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:41 +0000
Subject: [PATCH 010/145] fix: keep stored intermediate values in one place
 across the branches of ?:, && and ||

---
 scc.c | 45 +++++++++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/scc.c b/scc.c
index 5bee1a3..efa3c56 100644
--- a/scc.c
+++ b/scc.c
@@ -1388,14 +1388,26 @@ void FlushSpAdj(void)
     }
 }
 
+void PushReg(int r)
+{
+    Output1Byte(I_PUSH|r);
+    LocalOffset -= 2;
+}
+
+// Move stored value in BX (if any) to the stack
+void FlushBX(void)
+{
+    if (RegUse) {
+        RegUse = 0;
+        PushReg(R_BX);
+    }
+}
+
 void FlushPushAx(void)
 {
     if (Pending & PENDING_PUSHAX) {
         Pending &= ~PENDING_PUSHAX;
-        if (RegUse) {
-            Output1Byte(I_PUSH|R_BX);
-            LocalOffset -= 2;
-        }
+        FlushBX();
         Output1Byte(I_XCHG_AX|R_BX);
         RegUse = 1;
     }
@@ -1821,26 +1833,15 @@ void ParsePostfixExpression(void)
                     // Fall through
                 default:
                     EmitLoadAx(2, CurrentType & VT_LOCMASK, CurrentVal);
-                    Output1Byte(I_PUSH|R_AX); // TODO: Could possibly optimize as PENDING_PUSHAX
-                    LocalOffset -= 2;
+                    PushReg(R_AX); // TODO: Could possibly optimize as PENDING_PUSHAX
                 }
 
-                int RU = RegUse;
                 if (Pending & PENDING_PUSHAX) {
                     Pending &= ~PENDING_PUSHAX;
-                    if (RU) {
-                        Output1Byte(I_PUSH|R_BX);
-                        LocalOffset -= 2;
-                        RegUse = 0;
-                    }
-                    Output1Byte(I_PUSH|R_AX);
-                    LocalOffset -= 2;
-                }
-                if (RegUse) {
-                    Output1Byte(I_PUSH|R_BX);
-                    LocalOffset -= 2;
-                    RegUse = 0;
+                    FlushBX();
+                    PushReg(R_AX);
                 }
+                FlushBX();
 
                 int ArgSize = 0;
                 enum { ArgChunkSize = 8 }; // Must be power of 2
@@ -2368,7 +2369,10 @@ void HandleCondOp(void)
 
     const int FalseLabel = MakeLabel();
     const int EndLabel = MakeLabel();
-    DoCondHasExpr(FalseLabel, 1);
+    if (CurrentType != VT_BOOL)
+        ToBool();
+    FlushBX(); // Both branches must find stored values in the same place
+    EmitJcc(CurrentVal^1, FalseLabel);
     ParseAssignmentExpression();
     ForceToReg();
     const int LhsType = CurrentType;
@@ -2451,6 +2455,7 @@ void ParseExpr1(int OuterPrecedence)
             LEnd = MakeLabel();
             if (CurrentType != VT_BOOL)
                 ToBool();
+            FlushBX(); // Stored values must be in the same place whether or not the jump is taken
             EmitJcc(CurrentVal ^ !Temp, LEnd);
         } else {
             LEnd = -1;
-- 
2.43.0


From 495aef04989ea795f1efbf614a0b1d64975d230c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:33 +0000
Subject: [PATCH 011/145] fix: function pointer variables can be global,
 copied, compared and passed, and called inside expressions

---
 scc.c | 41 ++++++++++++++++++-----------------------
 1 file changed, 18 insertions(+), 23 deletions(-)

diff --git a/scc.c b/scc.c
index efa3c56..edf061a 100644
--- a/scc.c
+++ b/scc.c
@@ -192,7 +192,8 @@ enum {
     VT_LVAL     = 1<<4,
 
     VT_FUN      = 1<<5,
-    VT_FUNPTR   = 3<<5, // HACK
+    VT_FUNPTR   = 1<<6,
+    VT_FUNMASK  = 3<<5,
 
     VT_PTR1     = 1<<7,
     VT_PTRMASK  = 3<<7, // 3 levels of indirection should be enough..
@@ -1494,7 +1495,7 @@ int IsTypeStart(void)
 
 int SizeofType(int Type, int Extra)
 {
-    if (Type & (VT_PTRMASK|VT_FUNPTR))
+    if (Type & (VT_PTRMASK|VT_FUNMASK))
         return 2;
     switch (Type & VT_BASEMASK) {
     case VT_INT:  return 2;
@@ -1545,7 +1546,7 @@ LoadAddrRet:
             return;
         }
 
-        if (CurrentType & VT_FUNPTR)
+        if (CurrentType & VT_FUN)
             goto LoadAddrRet;
 
         const int sz = (CurrentType&~VT_UNSIGNED) != VT_CHAR;
@@ -1819,21 +1820,16 @@ void ParsePostfixExpression(void)
             {
                 // Function call
                 GetToken();
-                if (!(CurrentType & VT_FUNPTR)) Fail();
-                const int RetType  = CurrentType & ~(VT_FUNPTR|VT_LOCMASK|VT_LVAL);
+                if (!(CurrentType & VT_FUNMASK)) Fail();
+                const int RetType  = CurrentType & ~(VT_FUNMASK|VT_LOCMASK|VT_LVAL);
                 int RetExtra = CurrentTypeExtra;
                 struct VarDecl* Func = 0;
-                switch (CurrentType & VT_LOCMASK) {
-                case VT_LOCGLOB:
+                if ((CurrentType & (VT_FUN|VT_LOCMASK)) == (VT_FUN|VT_LOCGLOB)) {
                     Func = &VarDecls[CurrentVal];
                     RetExtra = Func->TypeExtra;
-                    break;
-                case 0:
-                    Output1Byte(I_XCHG_AX|R_SI);
-                    // Fall through
-                default:
-                    EmitLoadAx(2, CurrentType & VT_LOCMASK, CurrentVal);
-                    PushReg(R_AX); // TODO: Could possibly optimize as PENDING_PUSHAX
+                } else {
+                    LvalToRval();
+                    Pending |= PENDING_PUSHAX; // Address of function
                 }
 
                 if (Pending & PENDING_PUSHAX) {
@@ -1863,7 +1859,7 @@ void ParsePostfixExpression(void)
                         EmitStoreConst(2, VT_LOCOFF, LocalOffset + ArgSize);
                     } else {
                         GetVal();
-                        if ((CurrentType&~VT_UNSIGNED) != VT_INT && !(CurrentType & VT_PTRMASK)) Fail();
+                        if ((CurrentType&~VT_UNSIGNED) != VT_INT && !(CurrentType & (VT_PTRMASK|VT_FUNMASK))) Fail();
                         EmitStoreAx(2, VT_LOCOFF, LocalOffset + ArgSize);
                     }
                     ArgSize += 2;
@@ -2021,7 +2017,7 @@ void ParseUnaryExpression(void)
                 if (!(CurrentType & VT_LVAL)) {
                     Fatal("Lvalue required for address-of operator");
                 }
-                if (CurrentType & VT_FUNPTR)
+                if (CurrentType & VT_FUNMASK)
                     return;
                 const int loc = CurrentType & VT_LOCMASK;
                 if (loc) {
@@ -2054,7 +2050,7 @@ void ParseUnaryExpression(void)
                     CurrentVal ^= 1;
                 }
             } else if (Op == '*') {
-                if (CurrentType & VT_FUNPTR)
+                if (CurrentType & VT_FUNMASK)
                     return;
                 if (!(CurrentType & VT_PTRMASK)) {
                     Fatal("Pointer required for dereference");
@@ -2612,7 +2608,7 @@ RhsConst:
                     EmitMovRImm(R_CX, LhsVal);
                 }
             } else {
-                if ((LhsType&~VT_UNSIGNED) != VT_INT && !LhsPointeeSize) Fail();
+                if ((LhsType&~VT_UNSIGNED) != VT_INT && !LhsPointeeSize && !(LhsType & VT_FUNMASK)) Fail();
                 if (Op == '+' && LhsPointeeSize) {
                     GetVal();
                     EmitScaleAx(LhsPointeeSize);
@@ -2843,13 +2839,12 @@ Redo:
         goto Redo;
     }
 
-    int IsFunPtr = 0;
+    int FunType = VT_FUN;
     if (TokenType == '(') {
         // Hacks
         GetToken();
         Expect('*');
-        CurrentType |= VT_FUNPTR;
-        IsFunPtr = 1;
+        FunType = VT_FUNPTR;
     }
 
     if (Id) {
@@ -2861,14 +2856,14 @@ Redo:
         }
     }
 
-    if (IsFunPtr) {
+    if (FunType == VT_FUNPTR) {
         // More hacks
         Expect(')');
     }
 
     if (TokenType == '(') {
         GetToken();
-        const int T = CurrentType | VT_FUN;
+        const int T = CurrentType | FunType;
         const int E = CurrentTypeExtra;
 
         ArgsCount = 0;
-- 
2.43.0


From 0c6a615679a163bea24c4a3439a394a2896673cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:53 +0000
Subject: [PATCH 012/145] fix: functions taking function pointer arguments

---
 scc.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index edf061a..7adc6a4 100644
--- a/scc.c
+++ b/scc.c
@@ -2866,7 +2866,7 @@ Redo:
         const int T = CurrentType | FunType;
         const int E = CurrentTypeExtra;
 
-        ArgsCount = 0;
+        const int FirstArg = ArgsCount;
         while (TokenType != ')') {
             if (TokenType == TOK_ELLIPSIS) {
                 GetToken();
@@ -2887,6 +2887,8 @@ Redo:
             break;
         }
         Expect(')');
+        if (FirstArg)
+            ArgsCount = FirstArg; // Don't mix up arguments of function pointer arguments
         CurrentType      = T;
         CurrentTypeExtra = E;
         return;
@@ -2936,6 +2938,7 @@ void ParseAbstractDecl(void)
 struct VarDecl* DoDecl(void)
 {
     int Id;
+    ArgsCount = 0;
     ParseDeclarator(&Id);
     if (Id < 0) Fail();
     return AddVarDecl(Id);
@@ -3327,6 +3330,7 @@ void ParseExternalDefition(void)
             struct VarDecl* arg = AddVarDecl(A->Id);
             arg->Offset = 4 + i*2;
         }
+        ArgsCount = 0;
 
         if (LocalLabelCounter) Fail();
         LocalOffset = 0;
-- 
2.43.0


From dbf02e7185599c23611b21105901012fba794bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:56 +0000
Subject: [PATCH 013/145] fix: comparing a function pointer with a function

---
 scc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 7adc6a4..7b0e85d 100644
--- a/scc.c
+++ b/scc.c
@@ -2613,7 +2613,7 @@ RhsConst:
                     GetVal();
                     EmitScaleAx(LhsPointeeSize);
                     CurrentType = LhsType;
-                } else if ((Pending & PENDING_PUSHAX) && (CurrentType & VT_BASEMASK) != VT_ARRAY) {
+                } else if ((Pending & PENDING_PUSHAX) && (CurrentType & VT_BASEMASK) != VT_ARRAY && !(CurrentType & VT_FUN)) {
                     if ((CurrentType&(VT_BASEMASK|VT_PTRMASK)) != VT_CHAR) {
                         if (!(CurrentType&VT_LVAL)) Fail();
                         Pending &= ~PENDING_PUSHAX;
-- 
2.43.0


From 2bc763a1ff1cd1ae082067bc84d09ef3da350678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:55 +0000
Subject: [PATCH 014/145] fix: the value of an assignment has the type of its
 left operand

---
 scc.c | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/scc.c b/scc.c
index 7b0e85d..79b41f0 100644
--- a/scc.c
+++ b/scc.c
@@ -1554,10 +1554,11 @@ LoadAddrRet:
             Output2Bytes(I_XCHG_AX|R_SI, I_LODSB|sz);
         else
             EmitLoadAx(sz+1, loc, CurrentVal);
-        if (!sz) {
-            EmitExtend(CurrentType&VT_UNSIGNED);
-            CurrentType = VT_INT;
-        }
+    }
+    if ((CurrentType&~VT_UNSIGNED) == VT_CHAR) {
+        // Character in AL
+        EmitExtend(CurrentType&VT_UNSIGNED);
+        CurrentType = VT_INT;
     }
 }
 
@@ -2119,10 +2120,6 @@ void ParseCastExpression(void)
             GetVal(); // TODO: could optimize some constant expressions here
             CurrentType      = T;
             CurrentTypeExtra = E;
-            if ((CurrentType&~VT_UNSIGNED) == VT_CHAR) {
-                EmitExtend(CurrentType&VT_UNSIGNED);
-                CurrentType = VT_INT;
-            }
         } else {
             ParseExpr();
             Expect(')');
@@ -2543,9 +2540,7 @@ void ParseExpr1(int OuterPrecedence)
                         }
                         if (!LhsLoc)
                             Output1Byte(I_XCHG_AX|R_DI);
-                        CurrentType = LhsType | LhsLoc | VT_LVAL;
-                        CurrentVal = LhsVal;
-                        continue;
+                        goto ResLval;
                     }
                 }
                 if (!Temp) {
@@ -2562,19 +2557,21 @@ void ParseExpr1(int OuterPrecedence)
                 } else {
                     DoBinOp(Op, R_CX);
                 }
-            } else if (CurrentType == (VT_INT|VT_LOCLIT)) {
+            } else if (LhsLoc && CurrentType == (VT_INT|VT_LOCLIT)) {
                 // Constant assignment
-                if (!LhsLoc) {
-                    GetVal();
-                    Output1Byte(I_STOSB-1+Size);
-                } else {
-                    EmitStoreConst(Size, LhsLoc, LhsVal);
-                }
-                continue;
+                EmitStoreConst(Size, LhsLoc, LhsVal);
+            ResLval:
+                LhsType |= LhsLoc | VT_LVAL;
+                CurrentVal = LhsVal;
+                goto AssignOut;
             } else {
                 GetVal();
             }
             EmitStoreAx(Size, LhsLoc, LhsVal);
+        AssignOut:
+            // The value has the type of the left operand
+            CurrentType      = LhsType;
+            CurrentTypeExtra = LhsTypeExtra;
             continue;
         }
         int LhsPointeeSize = 0;
-- 
2.43.0


From 63722d58863dfedf6a6cbbe761c6da81a13acff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:08 +0000
Subject: [PATCH 015/145] fix: pointer minus integer and differences of
 pointers in either order

---
 scc.c | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/scc.c b/scc.c
index 79b41f0..a213c3e 100644
--- a/scc.c
+++ b/scc.c
@@ -2576,20 +2576,26 @@ void ParseExpr1(int OuterPrecedence)
         }
         int LhsPointeeSize = 0;
         if (LhsType & VT_PTRMASK) {
-            LhsPointeeSize = SizeofType(LhsType-VT_PTR1, LhsTypeExtra);
             if ((CurrentType&VT_BASEMASK) == VT_ARRAY)
                 LvalToRval(); // Decay array before overwriting CurrentTypeExtra
-            CurrentTypeExtra = LhsTypeExtra;
             IsUnsignedOp = 1;
+            if (Op == '+' || Op == '-') {
+                LhsPointeeSize = SizeofType(LhsType-VT_PTR1, LhsTypeExtra);
+                if (!(CurrentType & VT_PTRMASK)) {
+                    if (CurrentType == (VT_LOCLIT|VT_INT)) {
+                        CurrentVal *= LhsPointeeSize;
+                    } else {
+                        GetVal();
+                        EmitScaleAx(LhsPointeeSize);
+                    }
+                    LhsPointeeSize = -1; // Result is a pointer
+                }
+            }
         }
         if (CurrentType == (VT_LOCLIT|VT_INT)) {
             if (!((Pending&PENDING_PUSHAX)|IsDeadCode)) Fail();
             Pending &= ~PENDING_PUSHAX;
             CurrentType = VT_INT;
-            if (LhsType & VT_PTRMASK) {
-                CurrentVal *= LhsPointeeSize;
-                CurrentType = LhsType;
-            }
 RhsConst:
             DoRhsConstBinOp(Op);
         } else {
@@ -2605,12 +2611,8 @@ RhsConst:
                     EmitMovRImm(R_CX, LhsVal);
                 }
             } else {
-                if ((LhsType&~VT_UNSIGNED) != VT_INT && !LhsPointeeSize && !(LhsType & VT_FUNMASK)) Fail();
-                if (Op == '+' && LhsPointeeSize) {
-                    GetVal();
-                    EmitScaleAx(LhsPointeeSize);
-                    CurrentType = LhsType;
-                } else if ((Pending & PENDING_PUSHAX) && (CurrentType & VT_BASEMASK) != VT_ARRAY && !(CurrentType & VT_FUN)) {
+                if ((LhsType&~VT_UNSIGNED) != VT_INT && !(LhsType & (VT_PTRMASK|VT_FUNMASK))) Fail();
+                if ((Pending & PENDING_PUSHAX) && (CurrentType & VT_BASEMASK) != VT_ARRAY && !(CurrentType & VT_FUN)) {
                     if ((CurrentType&(VT_BASEMASK|VT_PTRMASK)) != VT_CHAR) {
                         if (!(CurrentType&VT_LVAL)) Fail();
                         Pending &= ~PENDING_PUSHAX;
@@ -2638,7 +2640,11 @@ DoNormal:
 BinOpOut:
         if (!IsDeadCode && GetSimpleALU(Op))
             LastZFInst = CodeAddress; // Multiplication, division and shifts don't (always) set ZF from the result
-        if (Op == '-' && LhsPointeeSize) {
+        if (LhsPointeeSize < 0) {
+            CurrentType      = LhsType;
+            CurrentTypeExtra = LhsTypeExtra;
+        } else if (LhsPointeeSize) {
+            IsUnsignedOp = 0;
             EmitDivAxConst(LhsPointeeSize);
             CurrentType = VT_INT;
         } else if ((CurrentType&~VT_UNSIGNED) == VT_INT) {
-- 
2.43.0


From 1e04875ce7d72a4750fa37ec8046d4be6a1f7fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:15 +0000
Subject: [PATCH 016/145] fix: scale the right operand of += and -= on pointers

---
 scc.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/scc.c b/scc.c
index a213c3e..7cae87b 100644
--- a/scc.c
+++ b/scc.c
@@ -2528,6 +2528,15 @@ void ParseExpr1(int OuterPrecedence)
                 if (!LhsLoc)
                     EmitMovRR(R_SI, R_DI); // TODO: Can sometimes be avoided
                 Temp = CurrentType == (VT_INT|VT_LOCLIT);
+                if (LhsType & VT_PTRMASK) {
+                    const int PointeeSize = SizeofType(LhsType-VT_PTR1, LhsTypeExtra);
+                    if (Temp) {
+                        CurrentVal *= PointeeSize;
+                    } else {
+                        GetVal();
+                        EmitScaleAx(PointeeSize);
+                    }
+                }
                 if (Size == 2) {
                     int Inst = GetSimpleALU(Op);
                     if (Inst) {
-- 
2.43.0


From e462fa082b18bb7fdc9cb32c15f6fd59a2adbb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:39 +0000
Subject: [PATCH 017/145] fix: every declarator of a declaration starts from
 the declared base type

---
 scc.c | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/scc.c b/scc.c
index 7cae87b..09d0fa8 100644
--- a/scc.c
+++ b/scc.c
@@ -2680,13 +2680,8 @@ void ParseAssignmentExpression(void)
 
 void SaveBaseType(void)
 {
-    BaseType      = CurrentType & ~VT_PTRMASK;
+    BaseType      = CurrentType;
     BaseTypeExtra = CurrentTypeExtra;
-    if ((CurrentType & VT_BASEMASK) == VT_ARRAY) {
-        struct ArrayDecl* AD = &ArrayDecls[CurrentTypeExtra];
-        BaseType      = AD->Type;
-        BaseTypeExtra = AD->TypeExtra;
-    }
 }
 
 void ParseDeclarator(int* Id);
@@ -2961,9 +2956,8 @@ struct VarDecl* ParseFirstDecl(void)
     ParseDeclSpecs();
     if (TokenType == ';')
         return 0;
-    struct VarDecl* VD = DoDecl();
     SaveBaseType();
-    return VD;
+    return DoDecl();
 }
 
 // Remember to reset CurrentType/CurrentTypeExtra before calling
-- 
2.43.0


From ea0d2bee720692cbdca9b4afdaa8eeed4797b97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:35 +0000
Subject: [PATCH 018/145] fix: allocate storage once for every referenced
 static and (re)declared global

---
 scc.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/scc.c b/scc.c
index 09d0fa8..3f5279d 100644
--- a/scc.c
+++ b/scc.c
@@ -344,7 +344,7 @@ struct Argument {
 };
 
 int CodeAddress = CODESTART;
-int BssSize;
+
 
 int MapFile;
 
@@ -1653,8 +1653,9 @@ void PopScope(void)
             continue;
         if (vd->Ref) {
             // Move static variable for real to global scope
-            CurrentType = vd->Type;
-            CurrentTypeExtra = vd->TypeExtra;
+            // Only remember the size, arrays and structs declared in the block are about to go away
+            CurrentTypeExtra = SizeofType(vd->Type, vd->TypeExtra);
+            CurrentType = VT_LOCGLOB;
             AddLateGlobalVar(-2)->Ref = vd->Ref;
         }
         VarLookup[vd->Id] = vd->Prev;
@@ -3265,7 +3266,6 @@ Skip:
 
             if (CurrentType & VT_STATIC) {
                 vd->Type = (CurrentType & ~VT_STATIC) | VT_LOCGLOB;
-                BssSize += size;
             } else {
                 vd->Type |= VT_LOCOFF;
                 size = (size+1)&-2;
@@ -3386,8 +3386,6 @@ void ParseExternalDefition(void)
             default:
                 Fail();
             }
-        } else {
-            BssSize += SizeofCurrentType();
         }
         vd = NextDecl();
     }
@@ -3486,9 +3484,8 @@ int main(int argc, char** argv)
             Fatal("Undefined function");
         }
         EmitGlobalLabel(vd);
-        CodeAddress += SizeofType(CurrentType, vd->TypeExtra);
+        CodeAddress += vd->Id == -2 ? vd->TypeExtra : SizeofType(CurrentType, vd->TypeExtra);
     }
-    if (CodeAddress - SBSS->Offset != BssSize) Fail();
     EmitGlobalLabel(EBSS);
 
     close(MapFile);
@@ -3498,7 +3495,7 @@ int main(int argc, char** argv)
     else
         MakeOutputFilename(argv[1], ".com");
     const int OutFile = OpenOutput();
-    write(OutFile, Output, CodeAddress - BssSize - CODESTART);
+    write(OutFile, Output, SBSS->Offset - CODESTART);
     close(OutFile);
 
     return 0;
-- 
2.43.0


From e97cc05e8d83e3f11f9edf8c548b2824ea1bae6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:25 +0000
Subject: [PATCH 019/145] fix: typedef names are types without storage, also
 for arrays

---
 scc.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scc.c b/scc.c
index 3f5279d..4922a9b 100644
--- a/scc.c
+++ b/scc.c
@@ -2820,7 +2820,7 @@ void ParseDeclSpecs(void)
             {
                 struct VarDecl* Typedef = LookupTypedef();
                 if (Typedef) {
-                    CurrentType      = Typedef->Type & ~VT_TYPEDEF;
+                    CurrentType      = Typedef->Type & ~(VT_TYPEDEF|VT_LOCMASK);
                     CurrentTypeExtra = Typedef->TypeExtra;
                     break;
                 }
@@ -2906,8 +2906,8 @@ Redo:
         GetToken();
         if (ArrayCount == ARRAY_MAX) Fail();
         struct ArrayDecl* AD = &ArrayDecls[ArrayCount];
-        const int F = CurrentType & VT_STATIC;
-        AD->Type      = CurrentType & ~VT_STATIC;
+        const int F = CurrentType & (VT_STATIC|VT_TYPEDEF);
+        AD->Type      = CurrentType & ~(VT_STATIC|VT_TYPEDEF);
         AD->TypeExtra = CurrentTypeExtra;
         if (TokenType != ']') {
             ParseExpr();
@@ -3477,7 +3477,7 @@ int main(int argc, char** argv)
     struct VarDecl* vd = VarDecls;
     struct VarDecl* end = &VarDecls[*Scopes];
     for (; vd != end; ++vd) {
-        if (((CurrentType = vd->Type) & VT_LOCMASK) != VT_LOCGLOB || vd->Offset || vd == EBSS)
+        if (((CurrentType = vd->Type) & (VT_TYPEDEF|VT_LOCMASK)) != VT_LOCGLOB || vd->Offset || vd == EBSS)
             continue;
         if (CurrentType & VT_FUN) {
             Printf("%s is undefined\n", IdText[vd->Id]);
-- 
2.43.0


From 35d4669acb4d33d8c57c000028432f8e49a959fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:29 +0000
Subject: [PATCH 020/145] fix: arrays of a typedef'ed array type keep their
 dimensions

---
 scc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 4922a9b..8358f54 100644
--- a/scc.c
+++ b/scc.c
@@ -2902,6 +2902,7 @@ Redo:
         return;
     }
 
+    const int FirstArray = ArrayCount;
     while (TokenType == '[') {
         GetToken();
         if (ArrayCount == ARRAY_MAX) Fail();
@@ -2927,7 +2928,7 @@ Redo:
         // -> (array{0},[[char,2]])
         // -> (array{1},[[char,3],[array{0},2]])
         // -> (array{2},[[char,4],[array{0},3],[array{1},2]])
-        while (AD->Type == VT_ARRAY) {
+        while (AD->Type == VT_ARRAY && AD->TypeExtra >= FirstArray) {
             struct ArrayDecl* AD2 = &ArrayDecls[AD->TypeExtra];
             const int Temp = AD->Bound;
             AD->Bound = AD2->Bound;
-- 
2.43.0


From 347f886143e262457b0e5e0e97c152666dbed18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:51 +0000
Subject: [PATCH 021/145] fix: array arguments are pointers

---
 scc.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scc.c b/scc.c
index 8358f54..22dda49 100644
--- a/scc.c
+++ b/scc.c
@@ -2886,6 +2886,11 @@ Redo:
             if (ArgsCount == ARGS_MAX) Fail();
             struct Argument* A = &Args[ArgsCount++];
             ParseDeclarator(&A->Id);
+            if (CurrentType == VT_ARRAY) {
+                // Array arguments are pointers
+                CurrentType |= VT_LVAL;
+                LvalToRval();
+            }
             A->Type      = CurrentType;
             A->TypeExtra = CurrentTypeExtra;
             if (TokenType == ',') {
-- 
2.43.0


From 5e5e14220c72cfed286a5d51035f1de8804e310a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:08 +0000
Subject: [PATCH 022/145] fix: typedef names can be redeclared in inner scopes

---
 scc.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scc.c b/scc.c
index 22dda49..c2cdb31 100644
--- a/scc.c
+++ b/scc.c
@@ -2691,7 +2691,7 @@ void ParseDeclSpecs(void)
 {
     int Flags = 0;
     // Could check if legal type, but we want to keep the code small...
-    CurrentType = VT_INT;
+    CurrentType = VT_BOOL; // No type seen yet
     for (;;) {
         switch (TokenType) {
         case TOK_VOID:
@@ -2819,11 +2819,13 @@ void ParseDeclSpecs(void)
         default:
             {
                 struct VarDecl* Typedef = LookupTypedef();
-                if (Typedef) {
+                if (Typedef && CurrentType == VT_BOOL) {
                     CurrentType      = Typedef->Type & ~(VT_TYPEDEF|VT_LOCMASK);
                     CurrentTypeExtra = Typedef->TypeExtra;
                     break;
                 }
+                if (CurrentType == VT_BOOL)
+                    CurrentType = VT_INT;
                 CurrentType |= Flags;
                 return;
             }
-- 
2.43.0


From 1a4deab8dccbce805e95dd12a8fd52e245821260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:13 +0000
Subject: [PATCH 023/145] fix: comparisons as operands of unary operators, []
 and compound assignments

---
 scc.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scc.c b/scc.c
index c2cdb31..48b570e 100644
--- a/scc.c
+++ b/scc.c
@@ -1925,7 +1925,7 @@ void ParsePostfixExpression(void)
                         }
                         EmitAddRegConst(R_AX, CurrentVal * Scale);
                     } else {
-                        LvalToRval();
+                        GetVal();
                         if ((CurrentType&~VT_UNSIGNED) != VT_INT || (Pending & PENDING_PUSHAX)) Fail();
                         EmitScaleAx(Scale);
                         if (GlobalArr) {
@@ -2033,8 +2033,8 @@ void ParseUnaryExpression(void)
             if ((CurrentType & VT_LOCMASK) == VT_LOCLIT) {
                 if (CurrentType != (VT_INT|VT_LOCLIT)) Fail();
                 IsConst = 1;
-            } else {
-                LvalToRval();
+            } else if (Op != '!') {
+                GetVal();
             }
             if (Op == '-') {
                 if (IsConst) {
@@ -2554,6 +2554,7 @@ void ParseExpr1(int OuterPrecedence)
                     }
                 }
                 if (!Temp) {
+                    GetVal();
                     if ((CurrentType&~VT_UNSIGNED) != VT_INT) Fail();
                     Output1Byte(I_XCHG_AX|R_CX);
                 }
-- 
2.43.0


From db512250ac78e51872aac37461c41f8d78be9578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:35 +0000
Subject: [PATCH 024/145] fix: comparisons of two constants

---
 scc.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/scc.c b/scc.c
index 48b570e..89d34d0 100644
--- a/scc.c
+++ b/scc.c
@@ -2479,8 +2479,14 @@ void ParseExpr1(int OuterPrecedence)
 
         if (LhsLoc == VT_LOCLIT && CurrentType == (VT_LOCLIT|VT_INT)) {
             if (LhsType != VT_INT) Fail();
-            CurrentVal = DoConstBinOp(Op, LhsVal, CurrentVal);
-            continue;
+            if (!(GetSimpleALU(Op)>>8)) {
+                CurrentVal = DoConstBinOp(Op, LhsVal, CurrentVal);
+                continue;
+            }
+            // Comparisons aren't folded
+            EmitMovRImm(R_AX, LhsVal);
+            LhsLoc = 0;
+            Pending |= PENDING_PUSHAX;
         }
 
         if (LEnd >= 0) {
-- 
2.43.0


From 181d3c7ddcd759fbbc10b32c62ef8c01b89ced6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:11 +0000
Subject: [PATCH 025/145] fix: variables declared between the cases of a switch

---
 scc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scc.c b/scc.c
index 89d34d0..67d5a50 100644
--- a/scc.c
+++ b/scc.c
@@ -420,6 +420,7 @@ int IsDeadCode;
 int NextSwitchCase = -1; // Where to go if we haven't matched
 int NextSwitchStmt;      // Where to go if we've matched (-1 if already emitted)
 int SwitchDefault;       // Optional switch default label
+int SwitchLevel;         // Stack level of switch (== LocalOffset of statement)
 
 unsigned char Output[OUTPUT_MAX]; // Place this last to allow partial stack overflows!
 
@@ -3091,6 +3092,8 @@ Redo:
         Stmt:
             EmitLocalLabel(NextSwitchStmt);
             NextSwitchStmt = -1;
+            if (LocalOffset != SwitchLevel)
+                EmitModrm(I_LEA, R_SP, VT_LOCOFF, LocalOffset); // Variables have been declared inside the switch
             goto Redo;
         }
     }
@@ -3243,7 +3246,9 @@ Redo:
             const int LastSwitchCase = NextSwitchCase;
             const int LastSwitchStmt = NextSwitchStmt;
             const int LastSwitchDef  = SwitchDefault;
+            const int LastSwitchLev  = SwitchLevel;
             BStackLevel    = LocalOffset;
+            SwitchLevel    = LocalOffset;
             BreakLabel     = MakeLabel();
             NextSwitchCase = MakeLabel();
             NextSwitchStmt = MakeLabel();
@@ -3267,6 +3272,7 @@ Redo:
             NextSwitchCase = LastSwitchCase;
             NextSwitchStmt = LastSwitchStmt;
             SwitchDefault  = LastSwitchDef;
+            SwitchLevel    = LastSwitchLev;
             BStackLevel    = OldBreakLevel;
             BreakLabel     = OldBreakLabel;
         }
-- 
2.43.0


From f60828c3ebcc2d1a66d8d892b3bf3b4734fb878b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:39 +0000
Subject: [PATCH 026/145] fix: integer plus pointer scales the integer

---
 scc.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/scc.c b/scc.c
index 67d5a50..c6ad69a 100644
--- a/scc.c
+++ b/scc.c
@@ -2592,6 +2592,22 @@ void ParseExpr1(int OuterPrecedence)
             CurrentTypeExtra = LhsTypeExtra;
             continue;
         }
+        if (Op == '+' && ((CurrentType & VT_PTRMASK) || (CurrentType & VT_BASEMASK) == VT_ARRAY) && !(LhsType & VT_PTRMASK)) {
+            // Integer + pointer, swap operands
+            GetVal();
+            LhsType      = CurrentType;
+            LhsTypeExtra = CurrentTypeExtra;
+            CurrentType  = LhsLoc|VT_INT;
+            if (LhsLoc) {
+                CurrentVal = LhsVal;
+                LhsLoc     = 0;
+                Pending |= PENDING_PUSHAX;
+            } else {
+                Temp = GetStoredVal(-1);
+                Output1Byte(I_XCHG_AX|Temp);
+                PushReg(Temp);
+            }
+        }
         int LhsPointeeSize = 0;
         if (LhsType & VT_PTRMASK) {
             if ((CurrentType&VT_BASEMASK) == VT_ARRAY)
-- 
2.43.0


From 6e9beec6f79389b712e4f5884ead500d8f9c2555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:45 +0000
Subject: [PATCH 027/145] fix: don't copy stale bytes past the end of the code
 into a jump over nothing

---
 scc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index c6ad69a..d32f552 100644
--- a/scc.c
+++ b/scc.c
@@ -1086,7 +1086,7 @@ void DoFixups(int r, int relative)
                 c[-2] = f+3;
                 // If the next instruction is a known jump / return, copy it in
                 c[1]  = I_XCHG_AX;
-                switch (c[2]) {
+                switch (f ? c[2] : 0) {
                 case I_JMP_REL8:
                     if (((signed char *)c)[3] > 0x7f-3)
                         break;
-- 
2.43.0


From 375e596cae7ed6c6fe6f8fd338e2f3307de9c637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:14 +0000
Subject: [PATCH 028/145] fix: parsing unevaluated expressions leaves the state
 of the code generator alone

---
 scc.c | 44 +++++++++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/scc.c b/scc.c
index d32f552..50ffdc3 100644
--- a/scc.c
+++ b/scc.c
@@ -1791,6 +1791,8 @@ void ParseAssignmentExpression(void);
 
 int GetStoredVal(int Reg)
 {
+    if (IsDeadCode)
+        return R_CX;
     if (Pending&PENDING_PUSHAX) Fail();
     if (RegUse) {
         RegUse = 0;
@@ -2000,6 +2002,27 @@ void ToBool(void)
     CurrentVal  = JNZ;
 }
 
+void ParseUnaryExpression(void);
+
+// Parse expression without generating code
+void ParseDead(int Unary)
+{
+    const int WasDead    = IsDeadCode;
+    const int OldPending = Pending;
+    const int OldOffset  = LocalOffset;
+    const int OldRegUse  = RegUse;
+    IsDeadCode = 1;
+    if (Unary)
+        ParseUnaryExpression();
+    else
+        ParseAssignmentExpression();
+    if (!IsDeadCode) Fail();
+    IsDeadCode  = WasDead;
+    Pending     = OldPending;
+    LocalOffset = OldOffset;
+    RegUse      = OldRegUse;
+}
+
 void ParseUnaryExpression(void)
 {
     switch (TokenType) {
@@ -2083,22 +2106,16 @@ void ParseUnaryExpression(void)
     case TOK_SIZEOF:
         {
             GetToken();
-            const int WasDead = IsDeadCode;
-            IsDeadCode = 1;
             if (TokenType == '(') {
                 GetToken();
-                if (IsTypeStart()) {
+                if (IsTypeStart())
                     ParseAbstractDecl();
-                    CurrentVal = SizeofCurrentType();
-                } else {
-                    ParseAssignmentExpression();
-                }
+                else
+                    ParseDead(0);
                 Expect(')');
             } else {
-                ParseUnaryExpression();
+                ParseDead(1);
             }
-            if (!IsDeadCode) Fail();
-            IsDeadCode = WasDead;
             CurrentVal = SizeofCurrentType();
             CurrentType = VT_LOCLIT | VT_INT;
             return;
@@ -2340,11 +2357,7 @@ void ParseMaybeDead(int Live)
         const int OldType  = CurrentType;
         const int OldVal   = CurrentVal;
         const int OldExtra = CurrentTypeExtra;
-        const int WasDead  = IsDeadCode;
-        IsDeadCode = 1;
-        ParseAssignmentExpression();
-        if (!IsDeadCode) Fail();
-        IsDeadCode       = WasDead;
+        ParseDead(0);
         CurrentType      = OldType;
         CurrentVal       = OldVal;
         CurrentTypeExtra = OldExtra;
@@ -3376,6 +3389,7 @@ void ParseExternalDefition(void)
         ArgsCount = 0;
 
         if (LocalLabelCounter) Fail();
+        Pending = 0; // Dead code may have left something
         LocalOffset = 0;
         ReturnLabel = -1;
         BreakLabel = ContinueLabel = -1;
-- 
2.43.0


From 6f6c8b5d4f1417668c4c724b34b9c1106d222400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:35 +0000
Subject: [PATCH 029/145] fix: reject local prototypes, extern and aggregate
 initializers instead of miscompiling them

---
 scc.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 50ffdc3..fc192c0 100644
--- a/scc.c
+++ b/scc.c
@@ -2744,9 +2744,10 @@ void ParseDeclSpecs(void)
         case TOK_VA_LIST:
             CurrentType = VT_CHAR | VT_PTR1;
             break;
+        case TOK_EXTERN:
+            if (ScopeCount != 1) Fail(); // Would have declared a local variable
         case TOK_AUTO:
         case TOK_CONST:
-        case TOK_EXTERN: // Should only really be allowed in global scope
         case TOK_REGISTER:
         case TOK_VOLATILE:
             // Ignore but accept for now
@@ -3312,6 +3313,7 @@ Skip:
     if (IsTypeStart()) {
         struct VarDecl* vd = ParseFirstDecl();
         while (vd) {
+            if (CurrentType & VT_FUN) Fail(); // Function prototypes only work in global scope
             int size = SizeofCurrentType();
 
             if (CurrentType & VT_STATIC) {
@@ -3321,6 +3323,7 @@ Skip:
                 size = (size+1)&-2;
                 if (TokenType == '=') {
                     GetToken();
+                    if (size != 2) Fail(); // Structs and arrays can't be initialized
                     ParseAssignmentExpression();
                     GetVal();
                     Output1Byte(I_PUSH|R_AX);
@@ -3426,6 +3429,7 @@ void ParseExternalDefition(void)
                 break;
             case VT_LVAL|VT_ARRAY:
                 {
+                    if ((vd->Type & (VT_BASEMASK|VT_PTRMASK)) != VT_ARRAY) Fail(); // Pointers can't be initialized
                     struct ArrayDecl* AD = &ArrayDecls[vd->TypeExtra];
                     if ((AD->Type & ~VT_UNSIGNED) != VT_CHAR) Fail();
                     if (AD->Bound) Fail(); // TODO
-- 
2.43.0


From 6d3d5b0ca1f6b180f5a1c81c89b115908d8732ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:00 +0000
Subject: [PATCH 030/145] fix: constants are 16 bit also on the host, division
 of constants by zero is an error, adding -32768

---
 scc.c | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/scc.c b/scc.c
index fc192c0..6e84f31 100644
--- a/scc.c
+++ b/scc.c
@@ -1245,15 +1245,15 @@ void EmitAddRegConst(int r, int Amm)
 {
     if (!Amm) return;
     int Op = r; // I_ADD | r
-    if (Amm < 0) {
+    if ((Amm = (short)Amm) < 0) {
         Amm = -Amm;
         Op += I_SUB;
     }
-    if (Amm <= 2) {
+    if ((unsigned)Amm <= 2) {
         Output1Byte(Op = (Op&15)|I_INC);
         if (--Amm)
             Output1Byte(Op);
-    } else if (Amm < 128) {
+    } else if ((unsigned)Amm < 128) {
         Output3Bytes(I_ALU_RM16_IMM8, MODRM_REG|Op, Amm);
     } else {
         if (!r)
@@ -1276,7 +1276,8 @@ void EmitMovRImm(int r, int val)
 
 void EmitScaleAx(int Scale)
 {
-    if (!Scale || (Scale & (Scale-1))) {
+    Scale = (short)Scale;
+    if (Scale <= 0 || (Scale & (Scale-1))) {
         EmitMovRImm(R_CX, Scale);
         Output2Bytes(0xF7, MODRM_REG|(4<<3)|R_CX); // MUL CX
     } else {
@@ -1298,7 +1299,7 @@ void EmitDivCX(void)
 
 void EmitDivAxConst(int Amm)
 {
-    if (Amm & (Amm-1)) {
+    if (Amm <= 0 || (Amm & (Amm-1))) {
         EmitMovRImm(R_CX, Amm);
         EmitDivCX();
     } else {
@@ -1730,7 +1731,7 @@ void ParsePrimaryExpression(void)
         return;
     case TOK_NUM:
         CurrentType = VT_LOCLIT | VT_INT;
-        CurrentVal  = TokenNumVal;
+        CurrentVal  = (short)TokenNumVal;
         GetToken();
         return;
     case TOK_STRLIT:
@@ -2062,7 +2063,7 @@ void ParseUnaryExpression(void)
             }
             if (Op == '-') {
                 if (IsConst) {
-                    CurrentVal = -CurrentVal;
+                    CurrentVal = (short)-CurrentVal;
                 } else {
                     if ((CurrentType&~VT_UNSIGNED) != VT_INT) Fail();
                     Output2Bytes(0xF7, 0xD8); // NEG AX
@@ -2282,6 +2283,7 @@ void DoRhsConstBinOp(int Op)
 
 int DoConstBinOp(int Op, int L, int R)
 {
+    if (!R && (Op == '/' || Op == '%')) Fatal("Division by zero");
     switch (Op) {
     case '+':     return L + R;
     case '-':     return L - R;
@@ -2291,8 +2293,8 @@ int DoConstBinOp(int Op, int L, int R)
     case '&':     return L & R;
     case '^':     return L ^ R;
     case '|':     return L | R;
-    case TOK_LSH: return L << R;
-    case TOK_RSH: return L >> R;
+    case TOK_LSH: return (unsigned)L << (R&31);
+    case TOK_RSH: return L >> (R&31);
     }
     Fail();
 }
@@ -2494,7 +2496,7 @@ void ParseExpr1(int OuterPrecedence)
         if (LhsLoc == VT_LOCLIT && CurrentType == (VT_LOCLIT|VT_INT)) {
             if (LhsType != VT_INT) Fail();
             if (!(GetSimpleALU(Op)>>8)) {
-                CurrentVal = DoConstBinOp(Op, LhsVal, CurrentVal);
+                CurrentVal = (short)DoConstBinOp(Op, LhsVal, CurrentVal);
                 continue;
             }
             // Comparisons aren't folded
-- 
2.43.0


From 1275e22a5c049c5760d7129dbfa5ac02e2064291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:23 +0000
Subject: [PATCH 031/145] fix: identifiers can't overflow the identifier buffer
 or the line buffer of messages

---
 scc.c | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/scc.c b/scc.c
index 6e84f31..5f82535 100644
--- a/scc.c
+++ b/scc.c
@@ -505,6 +505,12 @@ void Printf(const char* format, ...)
     va_end(vl);
 }
 
+void PutStr(const char* s)
+{
+    while (*s)
+        putchar(*s++);
+}
+
 #ifdef __SCC__
 int* GetBP(void)
 {
@@ -713,6 +719,7 @@ void GetToken(void)
         char* pc = IdBufPtr;
         unsigned Hash = (*pc++ = TokenType);
         while ((IsIdChar[(unsigned char)CurChar>>3]>>(CurChar&7)) & 1) {
+            if (pc-IdBuffer >= IDBUFFER_MAX-2) Fail();
             Hash += (Hash<<4)+(*pc++ = CurChar);
             if ((CurChar = *InBufPtr++))
                 continue;
@@ -727,7 +734,7 @@ void GetToken(void)
                 TokenType = IdHashTab[Hash] = IdCount++;
                 IdText[TokenType] = IdBufPtr;
                 IdBufPtr = pc;
-                if (IdBufPtr-IdBuffer > IDBUFFER_MAX) Fail();
+                if (IdBufPtr-IdBuffer > IDBUFFER_MAX-2) Fail(); // Room for a one character identifier
                 break;
             }
             if (memcmp(IdBufPtr, IdText[TokenType], pc - IdBufPtr)) {
@@ -927,8 +934,10 @@ Slash:
 
 void PrintTokenType(int T)
 {
-    if (T >= TOK_KEYWORD) Printf("%s ", IdText[T-TOK_KEYWORD]);
-    else if (T > ' ' && T < 128) Printf("%c ", T);
+    if (T >= TOK_KEYWORD) {
+        PutStr(IdText[T-TOK_KEYWORD]);
+        putchar(' ');
+    } else if (T > ' ' && T < 128) Printf("%c ", T);
     else Printf("%d ", T);
 }
 
@@ -1156,12 +1165,15 @@ void EmitGlobalLabel(struct VarDecl* vd)
     IsDeadCode = 0;
     DoFixups(vd->Ref, vd->Type & VT_FUN);
 
-    char* P = CvtHex(IdBufPtr, CodeAddress);
-    *P++ = ' ';
-    P = CopyStr(P, vd->Id == -2 ? StaticName : IdText[vd->Id]);
-    *P++ = '\r';
-    *P++ = '\n';
-    write(MapFile, IdBufPtr, (int)(P - IdBufPtr));
+    char Addr[6];
+    *CvtHex(Addr, CodeAddress) = ' ';
+    write(MapFile, Addr, 5);
+    const char* Name = vd->Id == -2 ? StaticName : IdText[vd->Id];
+    const char* End = Name;
+    while (*End)
+        ++End;
+    write(MapFile, Name, (int)(End - Name));
+    write(MapFile, "\r\n", 2);
 }
 
 void EmitGlobalRef(struct VarDecl* vd)
@@ -3537,7 +3549,8 @@ int main(int argc, char** argv)
         if (((CurrentType = vd->Type) & (VT_TYPEDEF|VT_LOCMASK)) != VT_LOCGLOB || vd->Offset || vd == EBSS)
             continue;
         if (CurrentType & VT_FUN) {
-            Printf("%s is undefined\n", IdText[vd->Id]);
+            PutStr(IdText[vd->Id]);
+            Printf(" is undefined\n");
             Fatal("Undefined function");
         }
         EmitGlobalLabel(vd);
-- 
2.43.0


From 25df62e0199c8c33f4b4ee91bcc94d82ee77a832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:26 +0000
Subject: [PATCH 032/145] fix: code and string literals can't be written beyond
 the output buffer

---
 scc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scc.c b/scc.c
index 5f82535..ef1310f 100644
--- a/scc.c
+++ b/scc.c
@@ -666,6 +666,7 @@ void GetStringLiteral(void)
             if (!CurChar) {
                 Fatal("Unterminated string literal");
             }
+            if (TokenStrLit+TokenNumVal-Output >= OUTPUT_MAX-1) Fail();
             char ch = CurChar;
             NextChar();
             if (ch == '\\') {
@@ -680,13 +681,13 @@ void GetStringLiteral(void)
         NextChar();
     }
     TokenStrLit[TokenNumVal++] = 0;
-    if (TokenStrLit+TokenNumVal-Output > OUTPUT_MAX) Fail();
 }
 
 const char IsIdChar[] = "\x00\x00\x00\x00\x00\x00\xFF\x03\xFE\xFF\xFF\x87\xFE\xFF\xFF\x07\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00";
 
 void GetToken(void)
 {
+    if (CodeAddress > OUTPUT_MAX+CODESTART-128) Fail(); // Leave room for the code of the next token
     if (CurChar <= '/') {
         if (SkipWhitespace()) {
             TokenType = '/';
@@ -1436,7 +1437,6 @@ int EmitChecks(void)
         FlushSpAdj();
         FlushPushAx();
     }
-    if (CodeAddress > OUTPUT_MAX+CODESTART) Fail();
     return 0;
 }
 
-- 
2.43.0


From b38d13bcad917592e2c52cd0e29590aaba22a02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:02 +0000
Subject: [PATCH 033/145] fix: unnamed parameters and late globals at the
 declaration limit corrupted memory

---
 scc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scc.c b/scc.c
index ef1310f..9747b8e 100644
--- a/scc.c
+++ b/scc.c
@@ -3392,12 +3392,15 @@ void ParseExternalDefition(void)
         }
         int i;
         // Make room for "late globals"
+        if (Scopes[0] > VARDECL_MAX-GLOBAL_RESERVE) Fail();
         memset(&VarDecls[Scopes[0]], -1, sizeof(VarDecls[0])*GLOBAL_RESERVE);
         Scopes[0] += GLOBAL_RESERVE;
         PushScope();
         Scopes[0] -= GLOBAL_RESERVE;
         for (i = 0; i < ArgsCount; ++i) {
             struct Argument* A = &Args[i];
+            if (A->Id < 0)
+                continue; // Unnamed
             CurrentType = A->Type | VT_LOCOFF;
             CurrentTypeExtra = A->TypeExtra;
             struct VarDecl* arg = AddVarDecl(A->Id);
-- 
2.43.0


From 75e52601e122dca18f077ce801269860135b7fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:31 +0000
Subject: [PATCH 034/145] fix: incomplete structs have no size

---
 scc.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/scc.c b/scc.c
index 9747b8e..56a1b91 100644
--- a/scc.c
+++ b/scc.c
@@ -368,7 +368,7 @@ const char* IdText[ID_MAX];
 int IdHashTab[ID_HASHMAX];
 int IdCount;
 
-struct StructMember StructMembers[STRUCT_MEMBER_MAX];
+struct StructMember StructMembers[STRUCT_MEMBER_MAX+1]; // The last one (of type void) marks structs not completely defined yet
 int StructMemCount;
 
 struct StructDecl StructDecls[STRUCT_MAX];
@@ -1522,6 +1522,7 @@ int SizeofType(int Type, int Extra)
         }
     case VT_STRUCT:
         {
+            if (Extra < 0) Fail(); // Never defined
             const int IsUnion = StructDecls[Extra].Id & IS_UNION_FLAG;
             int Size = 0;
             struct StructMember* SM = StructDecls[Extra].Members;
@@ -2837,7 +2838,9 @@ void ParseDeclSpecs(void)
                     const int SI = StructCount++;
                     struct StructDecl* SD = &StructDecls[SI];
                     SD->Id = id;
-                    struct StructMember** Last = &SD->Members;
+                    SD->Members = &StructMembers[STRUCT_MEMBER_MAX];
+                    struct StructMember* Members = 0;
+                    struct StructMember** Last = &Members;
                     while (TokenType != '}') {
                         /// XXX Issue here - Save Base type before this?
                         ParseDeclSpecs();
@@ -2849,6 +2852,8 @@ void ParseDeclSpecs(void)
                             if (SM->Id < 0) Fail();
                             SM->Type      = CurrentType;
                             SM->TypeExtra = CurrentTypeExtra;
+                            if (CurrentType != VT_ARRAY || ArrayDecls[CurrentTypeExtra].Bound)
+                                SizeofCurrentType(); // Must be a complete type
                             *Last = SM;
                             Last = &SM->Next;
                             if (TokenType == ',') {
@@ -2863,6 +2868,7 @@ void ParseDeclSpecs(void)
                     }
                     GetToken();
                     *Last = 0;
+                    SD->Members = Members;
                     CurrentTypeExtra = SI;
                 }
                 CurrentType = VT_STRUCT;
-- 
2.43.0


From ae15434d391ac454932e99455689fd79c68d7b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:57 +0000
Subject: [PATCH 035/145] fix: goto an undefined label is an error

---
 scc.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scc.c b/scc.c
index 56a1b91..c6feea6 100644
--- a/scc.c
+++ b/scc.c
@@ -3430,9 +3430,9 @@ void ParseExternalDefition(void)
         }
         Output2Bytes(I_POP|R_BP, I_RET);
 
-        // When debugging:
-        //int l;for (l = 0; l < LocalLabelCounter; ++l)if (!(Labels[l].Ref == 0)) Fail();
-        LocalLabelCounter = 0;
+        while (LocalLabelCounter) {
+            if (Labels[--LocalLabelCounter].Ref) Fatal("Undefined label");
+        }
         NamedLabelCount = 0;
         PopScope();
         return;
-- 
2.43.0


From bc18e05daf2c9fa5d88d0aea6d245cdd597a95f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:01 +0000
Subject: [PATCH 036/145] fix: only look for the extension in the last
 component of the output file name

---
 scc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scc.c b/scc.c
index c6feea6..e0202d4 100644
--- a/scc.c
+++ b/scc.c
@@ -3479,6 +3479,8 @@ void MakeOutputFilename(const char* n, const char* ext)
     while (*n) {
         if (*n == '.')
             LastDot = dest;
+        else if (*n == '/' || *n == '\\')
+            LastDot = 0;
         *dest++ = *n++;
     }
     CopyStr(LastDot ? LastDot : dest, ext);
-- 
2.43.0


From 49884af7c87aa991f2a2c8086c25083c2e2e10cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:04 +0000
Subject: [PATCH 037/145] fix: reject taking the address of a function pointer

---
 scc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index e0202d4..d1912ac 100644
--- a/scc.c
+++ b/scc.c
@@ -2057,8 +2057,10 @@ void ParseUnaryExpression(void)
                 if (!(CurrentType & VT_LVAL)) {
                     Fatal("Lvalue required for address-of operator");
                 }
-                if (CurrentType & VT_FUNMASK)
+                if (CurrentType & VT_FUNMASK) {
+                    if (CurrentType & VT_FUNPTR) Fail(); // No such type
                     return;
+                }
                 const int loc = CurrentType & VT_LOCMASK;
                 if (loc) {
                     EmitLoadAddr(R_AX, loc, CurrentVal);
-- 
2.43.0


From efa7713743573a15127af1492f1ef031128072e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:08 +0000
Subject: [PATCH 038/145] fix: the value of a function returning char is a char

---
 scc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scc.c b/scc.c
index d1912ac..42682f6 100644
--- a/scc.c
+++ b/scc.c
@@ -1902,6 +1902,7 @@ void ParsePostfixExpression(void)
                 LocalOffset  += ArgSize;
                 CurrentType = RetType;
                 if ((CurrentType&~VT_UNSIGNED) == VT_CHAR) {
+                    EmitExtend(CurrentType & VT_UNSIGNED);
                     CurrentType = VT_INT;
                 }
                 CurrentTypeExtra = RetExtra;
-- 
2.43.0


From ddc429a5fd16932ed4a3216c6d97ea29ea42b043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:43 +0000
Subject: [PATCH 039/145] fix: adjust limits so that scc compiles itself with
 enough stack

---
 scc.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scc.c b/scc.c
index 42682f6..9a6549c 100644
--- a/scc.c
+++ b/scc.c
@@ -163,13 +163,13 @@ enum {
     CODESTART = 0x100,
     INBUF_MAX = 512,
     SCOPE_MAX = 16,
-    VARDECL_MAX = 380,
-    ID_MAX = 580,
+    VARDECL_MAX = 370,
+    ID_MAX = 590,
     ID_HASHMAX = 1024,      // Must be power of 2 and (some what) greater than ID_MAX
     IDBUFFER_MAX = 5000,
     LABEL_MAX = 320,
     NAMED_LABEL_MAX = 8,
-    OUTPUT_MAX = 0x6000,    // Always try to reduce this if something fails unexpectedly... ~600bytes of stack is needed.
+    OUTPUT_MAX = 0x5F80,    // Always try to reduce this if something fails unexpectedly... ~600bytes of stack is needed.
     STRUCT_MAX = 8,
     STRUCT_MEMBER_MAX = 32,
     ARRAY_MAX = 32,
-- 
2.43.0


From 9c8bde21d07098acdfff8fe7a89f6bb0bd0ac579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:38 +0000
Subject: [PATCH 040/145] fix: ?:, && and || inside expressions that aren't
 evaluated

---
 scc.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scc.c b/scc.c
index 9a6549c..bcc048c 100644
--- a/scc.c
+++ b/scc.c
@@ -416,6 +416,7 @@ int RegUse;
 int LastZFInst;
 int LastFixup;
 int IsDeadCode;
+int IsDeadExpr; // Inside an expression that isn't evaluated
 
 int NextSwitchCase = -1; // Where to go if we haven't matched
 int NextSwitchStmt;      // Where to go if we've matched (-1 if already emitted)
@@ -1152,7 +1153,7 @@ void EmitLocalLabel(int l)
     if (l >= LocalLabelCounter || Labels[l].Addr) Fail();
     FlushSpAdj();
     LastZFInst = 0; // Other paths to this label may have left ZF in any state
-    IsDeadCode = 0;
+    IsDeadCode = IsDeadExpr;
     DoFixups(Labels[l].Ref, 1);
     Labels[l].Addr = CodeAddress;
     Labels[l].Ref = 0;
@@ -2027,11 +2028,12 @@ void ParseDead(int Unary)
     const int OldOffset  = LocalOffset;
     const int OldRegUse  = RegUse;
     IsDeadCode = 1;
+    ++IsDeadExpr;
     if (Unary)
         ParseUnaryExpression();
     else
         ParseAssignmentExpression();
-    if (!IsDeadCode) Fail();
+    --IsDeadExpr;
     IsDeadCode  = WasDead;
     Pending     = OldPending;
     LocalOffset = OldOffset;
-- 
2.43.0


From 224d27cfea1b615939df4db0d5146196533e7bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:42 +0000
Subject: [PATCH 041/145] fix: count all lines

---
 scc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scc.c b/scc.c
index bcc048c..0e226a4 100644
--- a/scc.c
+++ b/scc.c
@@ -566,6 +566,7 @@ int SkipWhitespace(void)
 {
     for (;;) {
         if (CurChar <= ' ') {
+            if (CurChar == '\n') ++Line;
             while ((CurChar = *InBufPtr++) <= ' ') {
                 switch (CurChar) {
                 case ' ':  continue;
-- 
2.43.0


From f5df30f88188214bf50eeeec7ee519af7981a77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:48 +0000
Subject: [PATCH 042/145] fix: no pending operand inside expressions that
 aren't evaluated

---
 scc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scc.c b/scc.c
index 0e226a4..c7ab6f1 100644
--- a/scc.c
+++ b/scc.c
@@ -2029,6 +2029,7 @@ void ParseDead(int Unary)
     const int OldOffset  = LocalOffset;
     const int OldRegUse  = RegUse;
     IsDeadCode = 1;
+    Pending = 0;
     ++IsDeadExpr;
     if (Unary)
         ParseUnaryExpression();
-- 
2.43.0


From 38517442970daba2fba85db153e061b7e556c688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:19 +0000
Subject: [PATCH 043/145] fix: a block after default: starts with the stack
 level of the label

---
 scc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index c7ab6f1..f9476db 100644
--- a/scc.c
+++ b/scc.c
@@ -3142,7 +3142,8 @@ Redo:
             if (SwitchDefault != -1) Fail();
             EnsureSwitchStmt();
             SwitchDefault = NextSwitchStmt;
-            goto Redo;
+            if (TokenType == TOK_CASE)
+                goto Redo;
         }
         if (NextSwitchStmt >= 0) {
             EmitJmp(NextSwitchCase);
-- 
2.43.0


From 6b168f34c5d42151dd957d54cfb609b8ee3f64db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:30 +0000
Subject: [PATCH 044/145] fix: constants after a comma operator can be right
 operands

---
 scc.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/scc.c b/scc.c
index f9476db..a9902a3 100644
--- a/scc.c
+++ b/scc.c
@@ -2661,8 +2661,7 @@ void ParseExpr1(int OuterPrecedence)
                 }
             }
         }
-        if (CurrentType == (VT_LOCLIT|VT_INT)) {
-            if (!((Pending&PENDING_PUSHAX)|IsDeadCode)) Fail();
+        if (CurrentType == (VT_LOCLIT|VT_INT) && ((Pending&PENDING_PUSHAX)|IsDeadCode)) {
             Pending &= ~PENDING_PUSHAX;
             CurrentType = VT_INT;
 RhsConst:
-- 
2.43.0


From 3ecc935eca614a3005b0947f49d7a9f4eec1c29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:22 +0000
Subject: [PATCH 045/145] fix: constants after a comma operator can be indices

---
 scc.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/scc.c b/scc.c
index a9902a3..27e26e7 100644
--- a/scc.c
+++ b/scc.c
@@ -1935,12 +1935,11 @@ void ParsePostfixExpression(void)
                 Expect(']');
 
                 if (!IsDeadCode) {
-                    if (CurrentType == (VT_INT|VT_LOCLIT)) {
+                    if (CurrentType == (VT_INT|VT_LOCLIT) && (GlobalArr || Pending & PENDING_PUSHAX)) {
                         if (GlobalArr) {
                             Output1Byte(I_MOV_R_IMM16|R_AX);
                             EmitGlobalRef(GlobalArr);
                         } else {
-                            if (!(Pending & PENDING_PUSHAX)) Fail();
                             Pending &= ~PENDING_PUSHAX;
                         }
                         EmitAddRegConst(R_AX, CurrentVal * Scale);
-- 
2.43.0


From 27def9f51716715cf38fa70b93668a0e4314b1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:37 +0000
Subject: [PATCH 046/145] fix: ?: with a constant condition is unsigned if
 either operand is

---
 scc.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/scc.c b/scc.c
index 27e26e7..82ed52e 100644
--- a/scc.c
+++ b/scc.c
@@ -169,7 +169,7 @@ enum {
     IDBUFFER_MAX = 5000,
     LABEL_MAX = 320,
     NAMED_LABEL_MAX = 8,
-    OUTPUT_MAX = 0x5F80,    // Always try to reduce this if something fails unexpectedly... ~600bytes of stack is needed.
+    OUTPUT_MAX = 0x5F00,    // Always try to reduce this if something fails unexpectedly... ~600bytes of stack is needed.
     STRUCT_MAX = 8,
     STRUCT_MEMBER_MAX = 32,
     ARRAY_MAX = 32,
@@ -2370,8 +2370,10 @@ void ForceToReg(void)
     }
 }
 
-void ParseMaybeDead(int Live)
+// Returns whether the expression is dead and unsigned
+int ParseMaybeDead(int Live)
 {
+    int Unsigned = 0;
     if (Live) {
         ParseAssignmentExpression();
     } else {
@@ -2379,10 +2381,12 @@ void ParseMaybeDead(int Live)
         const int OldVal   = CurrentVal;
         const int OldExtra = CurrentTypeExtra;
         ParseDead(0);
+        Unsigned = (CurrentType & ~(VT_LVAL|VT_LOCMASK)) == (VT_INT|VT_UNSIGNED);
         CurrentType      = OldType;
         CurrentVal       = OldVal;
         CurrentTypeExtra = OldExtra;
     }
+    return Unsigned;
 }
 
 void HandleCondOp(void)
@@ -2390,9 +2394,13 @@ void HandleCondOp(void)
     if (CurrentType == (VT_LOCLIT|VT_INT)) {
         // Handle potentially constant conditions
         const int V = CurrentVal;
-        ParseMaybeDead(V);
+        int Unsigned = ParseMaybeDead(V);
         Expect(':');
-        ParseMaybeDead(!V);
+        Unsigned |= ParseMaybeDead(!V);
+        if (Unsigned) {
+            GetVal();
+            CurrentType = VT_INT|VT_UNSIGNED;
+        }
         return;
     }
 
-- 
2.43.0


From 67dbf9ab0ad4e52a0d53cf61ecc189d188b018e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:11 +0000
Subject: [PATCH 047/145] fix: the address of a function that isn't defined yet

---
 scc.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scc.c b/scc.c
index 82ed52e..c16a5de 100644
--- a/scc.c
+++ b/scc.c
@@ -1083,11 +1083,11 @@ void DoFixups(int r, int relative)
     while (r) {
         int o = 0;
         f = CodeAddress;
-        if (relative) {
+        c = &Output[r - CODESTART];
+        if (relative || c[-1] == 0xE8 || c[-1] == I_JMP_REL16) {
             o = r + 2;
             f -= o;
         }
-        c = &Output[r - CODESTART];
         r = c[0]|c[1]<<8;
         if (!c[-1]) {
             // Fused Jcc/JMP
@@ -1166,7 +1166,7 @@ void EmitGlobalLabel(struct VarDecl* vd)
     if (vd->Offset) Fail();
     vd->Offset = CodeAddress;
     IsDeadCode = 0;
-    DoFixups(vd->Ref, vd->Type & VT_FUN);
+    DoFixups(vd->Ref, 0); // Calls are relative, the address of a function isn't
 
     char Addr[6];
     *CvtHex(Addr, CodeAddress) = ' ';
-- 
2.43.0


From 227050ad0f821a2b3e8ff75285cdbc7ea6be3ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:26 +0000
Subject: [PATCH 048/145] fix: calls of _start when it is the first function

---
 scc.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/scc.c b/scc.c
index c16a5de..b8f672b 100644
--- a/scc.c
+++ b/scc.c
@@ -1076,7 +1076,7 @@ struct NamedLabel* GetNamedLabel(int Id)
     return NL;
 }
 
-void DoFixups(int r, int relative)
+void DoFixups(int r)
 {
     int f;
     unsigned char* c;
@@ -1084,7 +1084,7 @@ void DoFixups(int r, int relative)
         int o = 0;
         f = CodeAddress;
         c = &Output[r - CODESTART];
-        if (relative || c[-1] == 0xE8 || c[-1] == I_JMP_REL16) {
+        if (!c[-1] || c[-1] == 0xE8 || c[-1] == I_JMP_REL16) {
             o = r + 2;
             f -= o;
         }
@@ -1155,7 +1155,7 @@ void EmitLocalLabel(int l)
     FlushSpAdj();
     LastZFInst = 0; // Other paths to this label may have left ZF in any state
     IsDeadCode = IsDeadExpr;
-    DoFixups(Labels[l].Ref, 1);
+    DoFixups(Labels[l].Ref);
     Labels[l].Addr = CodeAddress;
     Labels[l].Ref = 0;
 }
@@ -1164,9 +1164,9 @@ const char StaticName[] = "@static";
 void EmitGlobalLabel(struct VarDecl* vd)
 {
     if (vd->Offset) Fail();
-    vd->Offset = CodeAddress;
     IsDeadCode = 0;
-    DoFixups(vd->Ref, 0); // Calls are relative, the address of a function isn't
+    DoFixups(vd->Ref); // May remove a jump to the next instruction
+    vd->Offset = CodeAddress;
 
     char Addr[6];
     *CvtHex(Addr, CodeAddress) = ' ';
-- 
2.43.0


From d0348712bdcc5e70052cdf4aa76b8d73a062161d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:47 +0000
Subject: [PATCH 049/145] fix: don't read beyond the end of an identifier when
 comparing

---
 scc.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/scc.c b/scc.c
index b8f672b..3f287b6 100644
--- a/scc.c
+++ b/scc.c
@@ -60,15 +60,13 @@ void memset(void* ptr, int val, int size)
     _emit 0xF3 _emit 0xAA            // REP STOSB
 }
 
-int memcmp(void* l, void* r, int size)
+int strcmp(const char* a, const char* b)
 {
-    _emit 0x31 _emit 0xC0            // XOR AX, AX
-    _emit 0x8B _emit 0x7E _emit 0x04 // MOV DI,[BP+0x4]
-    _emit 0x8B _emit 0x76 _emit 0x06 // MOV SI,[BP+0x6]
-    _emit 0x8B _emit 0x4E _emit 0x08 // MOV CX,[BP+0x8]
-    _emit 0xF3 _emit 0xA6            // REPE CMPSB
-    _emit 0x74 _emit 0x01            // JE  $+3
-    _emit 0x40                       // INC AX // XXX: TODO sometimes output -1
+    while (*a && *a == *b) {
+        ++a;
+        ++b;
+    }
+    return *a - *b;
 }
 
 void exit(int retval)
@@ -740,7 +738,7 @@ void GetToken(void)
                 if (IdBufPtr-IdBuffer > IDBUFFER_MAX-2) Fail(); // Room for a one character identifier
                 break;
             }
-            if (memcmp(IdBufPtr, IdText[TokenType], pc - IdBufPtr)) {
+            if (strcmp(IdBufPtr, IdText[TokenType])) {
                 ++Hash;
                 continue;
             }
-- 
2.43.0


From 1077b2b5b7114053222e58ac2f4390105062ae0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:25 +0000
Subject: [PATCH 050/145] fix: sas: encode CS:, SS: and DS: overrides

---
 sas.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sas.c b/sas.c
index 450f35f..051edd5 100644
--- a/sas.c
+++ b/sas.c
@@ -897,7 +897,7 @@ DoMem:
         for (;;) {
             if (TokenType >= TOK_ES && TokenType <= TOK_DS) {
                 // Segment override
-                OutputByte(0x26 | (TokenType-TOK_ES));
+                OutputByte(0x26 | (TokenType-TOK_ES)<<3);
                 GetToken();
                 Expect(TOK_COLON);
                 continue;
-- 
2.43.0


From acc9955d61938e81a1ae529f7603014366296b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:29 +0000
Subject: [PATCH 051/145] fix: sas: [BP+label] with a label defined later

---
 sas.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sas.c b/sas.c
index 051edd5..fac32be 100644
--- a/sas.c
+++ b/sas.c
@@ -931,7 +931,7 @@ DoMem:
         }
         Expect(TOK_RBRACKET);
 
-        if (Oper->ModRM == 6 && !Oper->Disp)
+        if (Oper->ModRM == 6 && !Oper->Disp && !Oper->Fixup)
             Oper->ModRM |= 0x40;
 
         if (Oper->ModRM == -1)
-- 
2.43.0


From 6b4a1a1436ad9c709971e5143b610735d514a74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:33 +0000
Subject: [PATCH 052/145] fix: sas: only 1 and CL are valid shift counts

---
 sas.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sas.c b/sas.c
index fac32be..c9af098 100644
--- a/sas.c
+++ b/sas.c
@@ -1208,6 +1208,8 @@ void HandleROT(int r)
     if (op2.Type == OPTYPE_REG) {
         assert(op2.Disp == TOK_CL);
         Inst |= 2;
+    } else {
+        assert(op2.Type == OPTYPE_LIT && op2.Disp == 1 && !op2.Fixup);
     }
     OutputByte(Inst | W);
     OutputByte(0xC0 | r<<3 | (op1.Disp&7));
-- 
2.43.0


From b71aa8ec4e097615911a0c142ba1de3b8c0db1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:27 +0000
Subject: [PATCH 053/145] fix: sas: reject operands of different sizes

---
 sas.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/sas.c b/sas.c
index c9af098..c825a80 100644
--- a/sas.c
+++ b/sas.c
@@ -971,6 +971,19 @@ void Parse2Operands(struct Operand* op1, struct Operand* op2)
     ParseOperand(op1);
     Expect(TOK_COMMA);
     ParseOperand(op2);
+    int Size = SizeOverride;
+    struct Operand* op = op1;
+    for (;;) {
+        if (op->Type == OPTYPE_REG) {
+            const int RegSize = 1 + (op->Disp >= TOK_AX);
+            if (Size && Size != RegSize)
+                Fatal("Operand size mismatch");
+            Size = RegSize;
+        }
+        if (op == op2)
+            break;
+        op = op2;
+    }
 }
 
 void HandleDx(int size)
@@ -1201,7 +1214,9 @@ void HandleALU(int Base)
 void HandleROT(int r)
 {
     struct Operand op1, op2;
-    Parse2Operands(&op1, &op2);
+    ParseOperand(&op1);
+    Expect(TOK_COMMA);
+    ParseOperand(&op2);
     assert(op1.Type == OPTYPE_REG);
     const int W = op1.Disp >= TOK_AX;
     int Inst = 0xD0 | W;
-- 
2.43.0


From ca3b187f551008a8d9e9aeb5757ec3e5b80c2976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:30 +0000
Subject: [PATCH 054/145] fix: sas: reject segment registers in instructions
 that can't take them

---
 sas.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/sas.c b/sas.c
index c825a80..fa13cfe 100644
--- a/sas.c
+++ b/sas.c
@@ -1124,6 +1124,11 @@ void OutputMImm(int Inst, int r, struct Operand* M, struct Operand* Imm)
     OutputImm(Imm, W);
 }
 
+int IsSegReg(struct Operand* Op)
+{
+    return Op->Type == OPTYPE_REG && Op->Disp >= TOK_ES;
+}
+
 void HandleMOV(void)
 {
     struct Operand op1, op2;
@@ -1133,6 +1138,7 @@ void HandleMOV(void)
         if (op2.Type == OPTYPE_REG) {
             int Inst;
             int ModRM = (op1.Disp&7) | (op2.Disp&7)<<3;
+            assert(op1.Disp < TOK_ES || op2.Disp < TOK_ES);
             if (op1.Disp < TOK_ES) {
                 Inst = op2.Disp < TOK_ES ? 0x88|W : 0x8c;
             } else {
@@ -1142,6 +1148,7 @@ void HandleMOV(void)
             OutputByte(Inst);
             OutputByte(0xC0 | ModRM);
         } else if (op2.Type == OPTYPE_LIT) {
+            assert(op1.Disp < TOK_ES);
             OutputByte(0xB0 + op1.Disp - TOK_AL);
             OutputImm(&op2, W);
         } else {
@@ -1175,6 +1182,7 @@ void HandleALU(int Base)
     (void)Base;
     struct Operand op1, op2;
     Parse2Operands(&op1, &op2);
+    assert(!IsSegReg(&op1) && !IsSegReg(&op2));
     if (op1.Type == OPTYPE_REG) {
         const int W = op1.Disp >= TOK_AX;
         if (op2.Type == OPTYPE_REG) {
@@ -1217,7 +1225,7 @@ void HandleROT(int r)
     ParseOperand(&op1);
     Expect(TOK_COMMA);
     ParseOperand(&op2);
-    assert(op1.Type == OPTYPE_REG);
+    assert(op1.Type == OPTYPE_REG && op1.Disp < TOK_ES);
     const int W = op1.Disp >= TOK_AX;
     int Inst = 0xD0 | W;
     if (op2.Type == OPTYPE_REG) {
@@ -1249,6 +1257,7 @@ void HandleCALL(void)
     struct Operand op;
     ParseOperand(&op);
     if (op.Type == OPTYPE_REG) {
+        assert(op.Disp >= TOK_AX && op.Disp < TOK_ES);
         OutputByte(0xFF);
         OutputByte(0xC0 | 2<<3 | (op.Disp&7));
     } else {
@@ -1296,6 +1305,7 @@ void HandleIncDec(int Dec)
     struct Operand op;
     ParseOperand(&op);
     if (op.Type == OPTYPE_REG) {
+        assert(op.Disp < TOK_ES);
         if (op.Disp >= TOK_AX) {
             OutputByte(0x40 | Dec<<3 | (op.Disp&7));
         } else {
@@ -1353,7 +1363,7 @@ void HandleTEST(void)
     struct Operand op1, op2;
     Parse2Operands(&op1, &op2);
     if (op1.Type == OPTYPE_REG) {
-        assert(op2.Type == OPTYPE_LIT);
+        assert(op1.Disp < TOK_ES && op2.Type == OPTYPE_LIT);
         const int W = op1.Disp >= TOK_AX;
         if (op1.Disp == TOK_AL || op1.Disp == TOK_AX) {
             OutputByte(0xA8 | W);
@@ -1378,8 +1388,9 @@ void HandleXCHG(void)
     Parse2Operands(&op1, &op2);
     if (op1.Type == OPTYPE_REG) {
         int W = op1.Disp >= TOK_AX;
+        assert(op1.Disp < TOK_ES);
         if (op2.Type == OPTYPE_REG) {
-            assert(op1.Disp == TOK_AX);
+            assert(op1.Disp == TOK_AX && op2.Disp < TOK_ES);
             OutputByte(0x90 | (op2.Disp&7));
         } else {
             assert(op2.Type == OPTYPE_MEM);
@@ -1396,7 +1407,7 @@ void HandleMulDiv(int r)
     (void)r;
     struct Operand op;
     ParseOperand(&op);
-    assert(op.Type == OPTYPE_REG);
+    assert(op.Type == OPTYPE_REG && op.Disp < TOK_ES);
     OutputByte(0xF6 | (op.Disp >= TOK_AX));
     OutputByte(0xC0 | r<<3 | (op.Disp&7));
 }
@@ -1406,7 +1417,7 @@ void HandleNotNeg(int r)
     (void)r;
     struct Operand op;
     ParseOperand(&op);
-    assert(op.Type == OPTYPE_REG);
+    assert(op.Type == OPTYPE_REG && op.Disp < TOK_ES);
     OutputByte(0xF6 | (op.Disp >= TOK_AX));
     OutputByte(0xC0 | r<<3 | (op.Disp&7));
 }
@@ -1415,7 +1426,7 @@ void HandleLEA(void)
 {
     struct Operand op1, op2;
     Parse2Operands(&op1, &op2);
-    assert(op1.Type == OPTYPE_REG);
+    assert(op1.Type == OPTYPE_REG && op1.Disp >= TOK_AX && op1.Disp < TOK_ES);
     assert(op2.Type == OPTYPE_MEM);
     OutputMR(0x8D, &op2, &op1);
 }
-- 
2.43.0


From 3d5bd445076d6020c2fd0eed5968e903b9795a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:57 +0000
Subject: [PATCH 055/145] fix: sas: reject subtracted registers and labels

---
 sas.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sas.c b/sas.c
index fa13cfe..f078e19 100644
--- a/sas.c
+++ b/sas.c
@@ -902,6 +902,7 @@ DoMem:
                 Expect(TOK_COLON);
                 continue;
             } else if (TokenType == TOK_BX || TokenType == TOK_BP || TokenType == TOK_SI || TokenType == TOK_DI) {
+                assert(!neg);
                 Oper->ModRM = TranslateMemMod(Oper->ModRM);
                 GetToken();
             } else if (TokenType == TOK_NUMBER) {
@@ -911,7 +912,7 @@ DoMem:
                     Oper->Disp += TokenVal.Num;
                 GetToken();
             } else if (TokenType >= TOK_USER_ID) {
-                assert(!Oper->Fixup);
+                assert(!neg && !Oper->Fixup);
                 struct Label* L = ReferenceLabel();
                 assert(L->Type == LABEL_NORMAL);
                 if (L->Val == -1)
-- 
2.43.0


From 7701c2cfa4e4ca2935b61c308e201315b2e5e6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:00 +0000
Subject: [PATCH 056/145] fix: sas: DW with a label defined later

---
 sas.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/sas.c b/sas.c
index f078e19..8e048c9 100644
--- a/sas.c
+++ b/sas.c
@@ -987,6 +987,17 @@ void Parse2Operands(struct Operand* op1, struct Operand* op2)
     }
 }
 
+void AddFixupHere(struct Label* L, char Type)
+{
+    assert(NextFixup);
+    struct Fixup* F = NextFixup;
+    NextFixup = NextFixup->Next;
+    F->Type   = Type;
+    F->Offset = OutputBufPos;
+    F->Next   = L->Fixups;
+    L->Fixups = F;
+}
+
 void HandleDx(int size)
 {
     int n = 0; // Keep count of string output for alignment
@@ -1010,8 +1021,8 @@ void HandleDx(int size)
             if (L->Val != -1) {
                 OutputWord(L->Val);
             } else {
+                AddFixupHere(L, FIXUP_DISP16);
                 OutputWord(0);
-                printf("TODO: Need DISP16 fixup for DW\n");
             }
         } else {
             Fatal("Unexpected token in DB/DW directive: %s", TokenText());
@@ -1056,17 +1067,6 @@ void HandleDirective(int Dir)
     Fatal("Directive not implemented: %s\n", IdText(Dir));
 }
 
-void AddFixupHere(struct Label* L, char Type)
-{
-    assert(NextFixup);
-    struct Fixup* F = NextFixup;
-    NextFixup = NextFixup->Next;
-    F->Type   = Type;
-    F->Offset = OutputBufPos;
-    F->Next   = L->Fixups;
-    L->Fixups = F;
-}
-
 void OutputImm8(struct Operand* Op)
 {
     assert(!Op->Fixup);
-- 
2.43.0


From 2ef3cc180e24adccd511ad8cc6577cb8f4f68ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:48 +0000
Subject: [PATCH 057/145] fix: sas: diagnose short jumps backwards that are out
 of range

---
 sas.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/sas.c b/sas.c
index 8e048c9..5796d8a 100644
--- a/sas.c
+++ b/sas.c
@@ -1243,6 +1243,8 @@ void HandleRel8(struct Operand* Op)
 {
     if (Op->Fixup)
         AddFixupHere(Op->Fixup, FIXUP_REL8);
+    else if (!IsShort(Op->Disp-(VirtAddress+1)))
+        Fatal("Short jump out of range");
     OutputByte(Op->Disp-(VirtAddress+1));
 }
 
@@ -1292,12 +1294,7 @@ void HandleJCC(int CC)
     ParseOperand(&op);
     assert(op.Type == OPTYPE_LIT);
     OutputByte(0x70|CC);
-    if (op.Fixup) {
-        AddFixupHere(op.Fixup, FIXUP_REL8);
-        OutputByte(-(VirtAddress+1));
-    } else {
-        OutputByte(op.Disp-(VirtAddress+1));
-    }
+    HandleRel8(&op);
 }
 
 void HandleIncDec(int Dec)
-- 
2.43.0


From 2217b8f938e543ca36130b2e28a21014a5d3ab63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:52 +0000
Subject: [PATCH 058/145] fix: sas: diagnose undefined labels

---
 sas.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/sas.c b/sas.c
index 5796d8a..2414674 100644
--- a/sas.c
+++ b/sas.c
@@ -1591,6 +1591,12 @@ void AddBuiltins(const char* S)
     } while (c);
 }
 
+void CheckDefined(int Index)
+{
+    if (Labels[Index].Type == LABEL_NORMAL && Labels[Index].Val == -1)
+        Fatal("Undefined label %s", IdText(Index + TOK_USER_ID));
+}
+
 void MakeOutputFilename(char* dest, const char* n)
 {
     char* LastDot;
@@ -1679,6 +1685,7 @@ int main(int argc, char** argv)
                     // Retire local labels
                     for (i = 0; i < IdCount - (TOK_USER_ID-TOK_ID); ++i) {
                         if (Labels[i].Type && *IdText(i+TOK_USER_ID) == '.') {
+                            CheckDefined(i);
                             Labels[i].Type = LABEL_NONE;
                         }
                     }
@@ -1706,6 +1713,10 @@ int main(int argc, char** argv)
         }
     }
 
+    for (i = 0; i < IdCount - (TOK_USER_ID-TOK_ID); ++i) {
+        CheckDefined(i);
+    }
+
     if (argv[2])
        strcpy(StringBuf, argv[2]);
     else
-- 
2.43.0


From 008884c302861afce863f3c9a4d9997a034802ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:18 +0000
Subject: [PATCH 059/145] fix: sas: don't confuse identifiers with the same
 first 16 characters

---
 sas.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sas.c b/sas.c
index 2414674..f41a556 100644
--- a/sas.c
+++ b/sas.c
@@ -660,11 +660,12 @@ SkipSpaces:
         TokenVal.Num = n;
         return;
     } else if (IsIdChar()) {
-        char Token[17];
+        char Token[64];
         char* Tp = Token;
         do {
-            if (Tp < &Token[sizeof(Token)-1])
-                *Tp++ = CurrentChar;
+            if (Tp == &Token[sizeof(Token)-1])
+                Fatal("Identifier too long");
+            *Tp++ = CurrentChar;
             ReadChar();
         } while (IsDigit() || IsIdChar());
         *Tp++ = 0;
-- 
2.43.0


From 82f9548e2fd137cc947589450e504f3686592f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:21 +0000
Subject: [PATCH 060/145] fix: sas: check for too many identifiers

---
 sas.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sas.c b/sas.c
index f41a556..322f5b3 100644
--- a/sas.c
+++ b/sas.c
@@ -492,7 +492,7 @@ int HashStr(const char* Str)
 int AddId(const char* Str)
 {
     int l = (int)strlen(Str) + 1;
-    assert(IdBufferIndex + l <= IDBUFFER_MAX);
+    assert(IdCount < ID_MAX && IdBufferIndex + l <= IDBUFFER_MAX);
     memcpy(IdBuffer + IdBufferIndex, Str, l);
     IdOffset[IdCount] = IdBufferIndex;
     IdBufferIndex += l;
-- 
2.43.0


From 21f1871ae7e61cbc0afc4468ac617c1e41764cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:25 +0000
Subject: [PATCH 061/145] fix: sas: room for the terminator of the longest
 string

---
 sas.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sas.c b/sas.c
index 322f5b3..4f779df 100644
--- a/sas.c
+++ b/sas.c
@@ -679,7 +679,7 @@ SkipSpaces:
         int Len = 0;
         ReadChar();
         while (CurrentChar != '\'') {
-            assert(Len < (int)sizeof(StringBuf));
+            assert(Len < (int)sizeof(StringBuf)-1);
             if (!CurrentChar) Fatal("Unexpected EOF in string literal");
             StringBuf[Len++] = CurrentChar;
             ReadChar();
-- 
2.43.0


From c1b31b3f66b97ff2a9f11da9be7b2bbe2994e904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:28 +0000
Subject: [PATCH 062/145] fix: sas: stop on read errors

---
 sas.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sas.c b/sas.c
index 4f779df..eeec4f0 100644
--- a/sas.c
+++ b/sas.c
@@ -547,7 +547,8 @@ void ReadChar(void)
     if (InBufCnt == InBufSize) {
         InBufCnt = 0;
         InBufSize = read(InFile, InBuf, INBUF_MAX);
-        if (!InBufSize) {
+        if (InBufSize <= 0) {
+            InBufSize = 0;
             CurrentChar = 0;
             return;
         }
-- 
2.43.0


From 597ceedfa267508b8e316083faed86a033c2a7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:32 +0000
Subject: [PATCH 063/145] fix: sas: DW pads each string

---
 sas.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sas.c b/sas.c
index eeec4f0..97aa495 100644
--- a/sas.c
+++ b/sas.c
@@ -1002,7 +1002,6 @@ void AddFixupHere(struct Label* L, char Type)
 
 void HandleDx(int size)
 {
-    int n = 0; // Keep count of string output for alignment
     do {
         if (TokenType == TOK_NUMBER) {
             if (size == 1)
@@ -1011,10 +1010,11 @@ void HandleDx(int size)
                 OutputWord(TokenVal.Num);
             GetToken();
         } else if (TokenType == TOK_STRING) {
-            n += TokenVal.Str.Len;
             int i;
             for (i = 0; i < TokenVal.Str.Len; ++i)
                 OutputByte(TokenVal.Str.Data[i]);
+            if (size == 2 && (TokenVal.Str.Len&1))
+                OutputByte(0); // Strings are padded to whole words
             GetToken();
         } else if (TokenType >= TOK_USER_ID) {
             assert(size == 2);
@@ -1030,8 +1030,6 @@ void HandleDx(int size)
             Fatal("Unexpected token in DB/DW directive: %s", TokenText());
         }
     } while (Accept(TOK_COMMA));
-    if (size == 2 && (n&1))
-        OutputByte(0);
 }
 
 void HandleResx(int size)
-- 
2.43.0


From 3bdf1aea11434dba1c46b26c11821adb40bddbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:00 +0000
Subject: [PATCH 064/145] fix: sas: room for long strings in error messages

---
 sas.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sas.c b/sas.c
index 97aa495..7f7bd89 100644
--- a/sas.c
+++ b/sas.c
@@ -219,7 +219,7 @@ void sprintf(char* str, const char* format, ...)
 
 void printf(const char* format, ...)
 {
-    char msg[80];
+    char msg[256];
     va_list args;
     va_start(args, format);
     vsprintf(msg, format, args);
@@ -447,7 +447,7 @@ int SizeOverride;
 void Fatal(const char* format, ...)
 {
     printf("\nLine %d: Fatal error: ", Line);
-    char msg[80];
+    char msg[256];
     va_list args;
     va_start(args, format);
     vsprintf(msg, format, args);
-- 
2.43.0


From ca6ec97217971f3a2ea76f176f7e29e01d919402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:04 +0000
Subject: [PATCH 065/145] fix: sas: long file names and the exit status

---
 sas.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sas.c b/sas.c
index 7f7bd89..eaed579 100644
--- a/sas.c
+++ b/sas.c
@@ -1717,14 +1717,17 @@ int main(int argc, char** argv)
         CheckDefined(i);
     }
 
-    if (argv[2])
-       strcpy(StringBuf, argv[2]);
-    else
+    const char* OutName = argv[2];
+    if (!OutName) {
+        assert(strlen(argv[1]) < sizeof(StringBuf)-4);
         MakeOutputFilename(StringBuf, argv[1]);
-    const int OutFile = open(StringBuf, CREATE_FLAGS, 0600);
+        OutName = StringBuf;
+    }
+    const int OutFile = open(OutName, CREATE_FLAGS, 0600);
     if (OutFile < 0) {
         Fatal("Error creating output file");
     }
     write(OutFile, OutputBuf, OutputBufPos);
     close(OutFile);
+    return 0;
 }
-- 
2.43.0


From def71c6e09c676445c512b075c3b8aa018c46bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:36 +0000
Subject: [PATCH 066/145] fix: sas: constants are 16 bits on every host

---
 sas.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sas.c b/sas.c
index eaed579..8f5b8d4 100644
--- a/sas.c
+++ b/sas.c
@@ -635,7 +635,7 @@ SkipSpaces:
         // EOF
         return;
     } else if (IsDigit()) {
-        int n = CurrentChar-'0';
+        unsigned n = CurrentChar-'0';
         ReadChar();
         if (!n) {
             if (CurrentChar == 'x' || CurrentChar == 'X') {
@@ -658,7 +658,7 @@ SkipSpaces:
             ReadChar();
         }
         TokenType = TOK_NUMBER;
-        TokenVal.Num = n;
+        TokenVal.Num = (short)n;
         return;
     } else if (IsIdChar()) {
         char Token[64];
@@ -806,7 +806,10 @@ int ParseExpr(int LHS, int OuterPrecedence)
         case TOK_PLUS:  LHS += RHS; break;
         case TOK_MINUS: LHS -= RHS; break;
         case TOK_PIPE:  LHS |= RHS; break;
-        case TOK_LSH:   LHS <<= RHS; break;
+        case TOK_LSH:
+            if (RHS < 0 || RHS > 15) Fatal("Shift count out of range");
+            LHS = (short)((unsigned)LHS << RHS);
+            break;
         default:
             Fatal("TODO operator %c\n", Op);
         }
-- 
2.43.0


From 6876d9859c82209477899639117dc8a07d699a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:29 +0000
Subject: [PATCH 067/145] fix: scpp: > in #if

---
 scpp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scpp.c b/scpp.c
index bff8b44..3b301be 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1318,7 +1318,7 @@ int EvalExpr1(int LHS, int OuterPrec)
         case '+': LHS += RHS; break;
         case '-': LHS -= RHS; break;
         case '<': LHS = LHS < RHS; break;
-        case '>': LHS = LHS < RHS; break;
+        case '>': LHS = LHS > RHS; break;
         case TOK_LTEQ: LHS = LHS <= RHS; break;
         case TOK_GTEQ: LHS = LHS >= RHS; break;
         case TOK_EQEQ: LHS = LHS == RHS; break;
-- 
2.43.0


From a0dc451ae51d4f11a0266d9641c27ad5360d71a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:33 +0000
Subject: [PATCH 068/145] fix: scpp: operators in #if are left associative

---
 scpp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scpp.c b/scpp.c
index 3b301be..b4f0104 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1307,7 +1307,7 @@ int EvalExpr1(int LHS, int OuterPrec)
             if (LookAheadOp <= ' ' || LookAheadOp >= TOK_ID)
                 break;
             const int LookAheadPrec = OperatorPrecedence(LookAheadOp);
-            if (LookAheadPrec > Prec)
+            if (LookAheadPrec >= Prec)
                 break;
             RHS = EvalExpr1(RHS, LookAheadPrec);
         }
-- 
2.43.0


From 6f4d99f19564ef183249049502c9837650467d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:37 +0000
Subject: [PATCH 069/145] fix: scpp: don't evaluate #if in a skipped group

---
 scpp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scpp.c b/scpp.c
index b4f0104..2b0ba3b 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1440,7 +1440,7 @@ void HandleDirective(void)
 
         char* S = CondCount ? &CondState[CondCount-1] : 0;
         if (Directive == TOK_IF) {
-            NewCond(EvalExpr());
+            NewCond(CondActive() && EvalExpr());
         } else if (Directive == TOK_ELIF) {
             assert(S);
             if (*S == COND_TRUE)
-- 
2.43.0


From 515e748f12667c057d966c95db9fc859f9734ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:40 +0000
Subject: [PATCH 070/145] fix: scpp: forget everything about a macro in #undef

---
 scpp.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scpp.c b/scpp.c
index 2b0ba3b..34aa52a 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1412,8 +1412,11 @@ void HandleDirective(void)
             ReplaceId();
             if (CurTok.Type >= TOK_USER_ID) {
                 // HACK: Just hide #undef'ed macros
-                Macros[CurTok.Type - TOK_USER_ID].Hide = 2;
-                FreeTokenList(Macros[CurTok.Type - TOK_USER_ID].Replacement);
+                struct Macro* M = &Macros[CurTok.Type - TOK_USER_ID];
+                M->Hide = 2;
+                FreeTokenList(M->Replacement);
+                M->Replacement = 0;
+                M->Arguments = 0;
             }
             GetToken();
         }
-- 
2.43.0


From 0fc475d2519758a9573a019be7642502d262950a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:37 +0000
Subject: [PATCH 071/145] fix: scpp: only recognize # at the start of a line
 and don't expand macros in skipped groups

---
 scpp.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/scpp.c b/scpp.c
index 34aa52a..1710d5b 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1439,16 +1439,20 @@ void HandleDirective(void)
             assert(0);
         }
     } else {
-        GetToken();
-
         char* S = CondCount ? &CondState[CondCount-1] : 0;
+        const int Eval = (Directive == TOK_IF && CondActive()) || (Directive == TOK_ELIF && S && *S == COND_FALSE);
+        if (Eval)
+            GetToken();
+        else
+            RawGetToken(); // Don't expand macros in expressions that aren't evaluated
+
         if (Directive == TOK_IF) {
-            NewCond(CondActive() && EvalExpr());
+            NewCond(Eval && EvalExpr());
         } else if (Directive == TOK_ELIF) {
             assert(S);
             if (*S == COND_TRUE)
                 *S = COND_DONE;
-            else if (*S == COND_FALSE && EvalExpr())
+            else if (Eval && EvalExpr())
                 *S = COND_TRUE;
         } else if (Directive == TOK_ELSE) {
             assert(S);
@@ -1501,9 +1505,12 @@ void PPMain(void)
             if (!CurTok.Type)
                 return;
             assert(CurTok.Type == TOK_NEWLINE);
-            GetToken();
             StartOfLine = 1;
             Active = CondActive();
+            if (Active)
+                GetToken();
+            else
+                RawGetToken();
             continue;
         case 0:
             if (Debug) printf("Exiting '%s' (%d)\n", CurFile->Filename, NumFiles);
@@ -1520,8 +1527,13 @@ void PPMain(void)
             continue;
         }
 
+        if (CurTok.Type == TOK_NEWLINE)
+            StartOfLine = 1;
+        else if (CurTok.Type != TOK_WHITESPACE)
+            StartOfLine = 0;
+
         if (!Active) {
-            GetToken();
+            RawGetToken(); // No macro expansion in skipped groups
             continue;
         }
 
@@ -1532,7 +1544,6 @@ void PPMain(void)
             continue;
         case TOK_NEWLINE:
             WS |= WS_NEWLINE;
-            StartOfLine = 1;
             GetToken();
             continue;
         }
-- 
2.43.0


From d0b65584c18678373ea9d97dc24174c1dda0cf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:41 +0000
Subject: [PATCH 072/145] fix: scpp: other characters are tokens of their own

---
 scpp.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/scpp.c b/scpp.c
index 1710d5b..9c06ef6 100644
--- a/scpp.c
+++ b/scpp.c
@@ -787,9 +787,6 @@ Identifier:
     case '.':
     case '~':
         break;
-    default:
-        printf("Unknown token type %c (%02X)\n", CurTok.Type, CurTok.Type);
-        assert(0);
     }
 Out:
     assert(TokenDataPos < TOKEN_DATA_MAX);
-- 
2.43.0


From 463a2dd1d3ca75e060deb5daf44568329d5e2878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:05 +0000
Subject: [PATCH 073/145] fix: scpp: number suffixes and invalid digits in #if

---
 scpp.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/scpp.c b/scpp.c
index 9c06ef6..5a7492e 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1215,12 +1215,15 @@ int EvalUnary(void)
         }
         int ch;
         while ((ch = *s++)) {
-            n *= base;
             if (ch >= '0' && ch <= '9')
-                n += ch - '0';
+                ch -= '0';
             else {
-                n += (ch & 0xdf) - ('A' - 10);
+                ch = (ch & 0xdf) - ('A' - 10);
+                if (ch >= base && (ch == 'U' - ('A' - 10) || ch == 'L' - ('A' - 10)))
+                    continue; // Suffix
             }
+            assert(ch >= 0 && ch < base);
+            n = (unsigned)n * base + ch;
         }
         GetToken();
         return n;
-- 
2.43.0


From 741a22a84d4a8c0ab68130877b2f8c7c2c9148c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:09 +0000
Subject: [PATCH 074/145] fix: scpp: division by zero and overflow in #if

---
 scpp.c | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/scpp.c b/scpp.c
index 5a7492e..d757d56 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1282,6 +1282,8 @@ int OperatorPrecedence(int Op)
     return 100;
 }
 
+int NoEval; // Non-zero inside an operand that isn't evaluated
+
 int EvalExpr1(int LHS, int OuterPrec)
 {
     for (;;) {
@@ -1294,12 +1296,19 @@ int EvalExpr1(int LHS, int OuterPrec)
             break;
         GetToken();
         if (Op == '?') {
+            const int C = !LHS;
+            NoEval += C;
             const int L = EvalExpr1(EvalUnary(), 14);
+            NoEval -= C;
             Expect(':');
+            NoEval += !C;
             const int R = EvalExpr1(EvalUnary(), 14);
+            NoEval -= !C;
             LHS = LHS ? L : R;
             continue;
         }
+        const int Skip = (Op == TOK_ANDAND && !LHS) || (Op == TOK_OROR && LHS);
+        NoEval += Skip;
         int RHS = EvalUnary();
         for (;;) {
             SkipWS();
@@ -1311,12 +1320,24 @@ int EvalExpr1(int LHS, int OuterPrec)
                 break;
             RHS = EvalExpr1(RHS, LookAheadPrec);
         }
+        NoEval -= Skip;
         switch (Op) {
-        case '*': LHS *= RHS; break;
-        case '/': LHS /= RHS; break;
-        case '%': LHS %= RHS; break;
-        case '+': LHS += RHS; break;
-        case '-': LHS -= RHS; break;
+        case '*': LHS = (unsigned)LHS * (unsigned)RHS; break;
+        case '/':
+        case '%':
+            if (!RHS) {
+                assert(NoEval);
+                RHS = 1;
+            }
+            if (RHS == -1) // Avoid overflow
+                LHS = Op == '/' ? 0 - (unsigned)LHS : 0;
+            else if (Op == '/')
+                LHS /= RHS;
+            else
+                LHS %= RHS;
+            break;
+        case '+': LHS = (unsigned)LHS + (unsigned)RHS; break;
+        case '-': LHS = (unsigned)LHS - (unsigned)RHS; break;
         case '<': LHS = LHS < RHS; break;
         case '>': LHS = LHS > RHS; break;
         case TOK_LTEQ: LHS = LHS <= RHS; break;
-- 
2.43.0


From 8705f2fd8d7288e1ec21af46b195c74e0a82e538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:29 +0000
Subject: [PATCH 075/145] fix: scpp: check for overflow of TokenData and file
 names

---
 scpp.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scpp.c b/scpp.c
index d757d56..ea89117 100644
--- a/scpp.c
+++ b/scpp.c
@@ -722,6 +722,7 @@ Restart:
             if (CurrentChar == 'x' || CurrentChar == 'X')
                 ReadToTokenData();
             while ((IsIdChar[(unsigned char)CurrentChar>>3]>>(CurrentChar&7)) & 1) {
+                assert(TokenDataPos < TOKEN_DATA_MAX);
                 TokenData[TokenDataPos++] = CurrentChar;
                 if ((CurrentChar = *CurFileBuf++))
                     continue;
@@ -735,6 +736,7 @@ Identifier:
         CurTok.Type = TOK_RAW_ID;
         CurHash = 0;
         do {
+            assert(TokenDataPos < TOKEN_DATA_MAX);
             CurHash += (CurHash<<4)+(TokenData[TokenDataPos++] = CurrentChar);
             if (!(CurrentChar = *CurFileBuf++)) {
                 --CurFileBuf;
@@ -927,6 +929,7 @@ void GetToken(void)
             if (CurTok.Type > TOK_DEFINED) {
                 if (Debug) printf("Special token! %s\n", CurTok.Text);
                 if (CurTok.Type == TOK___LINE__) {
+                    assert(NextTokenDataPos <= TOKEN_DATA_MAX-12);
                     char* T = &TokenData[NextTokenDataPos];
                     sprintf(T, "%d", Line);
                     NextTokenDataPos += (int)strlen(T) + 1;
@@ -1391,6 +1394,7 @@ void HandleInclude(void)
         while (CurrentChar != '>') {
             ReadToTokenData();
         }
+        assert(TokenDataPos < TOKEN_DATA_MAX);
         TokenData[TokenDataPos++] = 0;
         NextTokenDataPos = TokenDataPos;
     } else {
@@ -1616,6 +1620,7 @@ int main(int argc, char** argv)
     const char* OutName = argv[2];
     char Temp[FNAME_MAX];
     if (!OutName) {
+        assert(strlen(argv[1]) < FNAME_MAX-2);
         MakeOutputFilename(Temp, argv[1]);
         OutName = Temp;
     }
-- 
2.43.0


From bd052df7f55ac8d20dbd153ea6a787420083c74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:51 +0000
Subject: [PATCH 076/145] fix: scpp: macros with an empty parameter list

---
 scpp.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scpp.c b/scpp.c
index ea89117..945ddb1 100644
--- a/scpp.c
+++ b/scpp.c
@@ -883,6 +883,8 @@ struct Argument* GetArg(int Id)
 {
     if (ReplaceNest && ReplaceStack[ReplaceNest-1].M) {
         struct Argument* A = ReplaceStack[ReplaceNest-1].M->Arguments;
+        if (A == (struct Argument*)1)
+            return 0;
         for (; A; A = A->Next) {
             if (A->Id == Id) {
                 if (Debug) {
@@ -1141,7 +1143,7 @@ void HandleDefine(void)
             if (PendWS == 0) PendWS = 1;
             continue;
         }
-        if (M->Arguments && CurTok.Type == TOK_RAW_ID) {
+        if (M->Arguments && M->Arguments != (struct Argument*)1 && CurTok.Type == TOK_RAW_ID) {
             ReplaceId();
             if (CurTok.Type >= TOK_USER_ID) {
                 struct Argument* A = M->Arguments;
-- 
2.43.0


From 54b0eab9ba0ae88aebef5901cc5ec975bcc8f5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:09 +0000
Subject: [PATCH 077/145] fix: scpp: ## with an empty left operand

---
 scpp.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/scpp.c b/scpp.c
index 945ddb1..9b263a2 100644
--- a/scpp.c
+++ b/scpp.c
@@ -560,8 +560,18 @@ void PrintToken(const struct Token* T);
 
 void PasteAppend(struct Token* Tok)
 {
-    CurTok = *SimpleExpand(&CurTok);
+    struct Token* First = SimpleExpand(&CurTok);
     Tok = SimpleExpand(Tok);
+    if (!First) {
+        if (Tok) {
+            CurTok = *Tok;
+        } else {
+            CurTok.Type = TOK_WHITESPACE;
+            CurTok.Text = "";
+        }
+        return;
+    }
+    CurTok = *First;
     if (Debug) { printf("Paste "); if(Tok)PrintToken(Tok); printf(" to "); PrintToken(&CurTok); printf("\n"); }
     const char* T2 = Tok ? Tok->Text : "";
     const int l1 = (int)strlen(CurTok.Text);
-- 
2.43.0


From 400b91bd320f4b67c745da2a82cc1d40920e5b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:14 +0000
Subject: [PATCH 078/145] fix: scpp: token order after the name of a
 function-like macro that isn't called

---
 scpp.c | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/scpp.c b/scpp.c
index 9b263a2..18f5ab2 100644
--- a/scpp.c
+++ b/scpp.c
@@ -416,6 +416,7 @@ struct Macro Macros[MACRO_MAX];
 struct ReplaceStackElem {
     struct Macro* M;
     struct TokenList* TL;
+    struct TokenList* Temp; // Freed when done
     int Stop;
 } ReplaceStack[MAX_NEST];
 int ReplaceNest;
@@ -616,6 +617,8 @@ void RawGetToken(void)
             RS->M->Hide = 0;
             FreeArgs(RS->M->Arguments);
         }
+        FreeTokenList(RS->Temp);
+        RS->Temp = 0;
         --ReplaceNest;
         if (Debug) printf("Popped replacement list (Stop=%d)\n", RS->Stop);
         if (RS->Stop) {
@@ -977,12 +980,27 @@ void GetToken(void)
             RawSkipWS();
             if (CurTok.Type != '(') {
                 // Undo consumption of ID and any whitespace
-                if (WS < ' ') {
-                    struct Token WSToken;
-                    WSToken.Type = WS;
-                    TokenQueuePush(&WSToken);
+                struct Token WSToken;
+                WSToken.Type = WS;
+                if (ReplaceNest) {
+                    // To be returned before the rest of the replacement list
+                    struct TokenList* Temp = 0;
+                    struct TokenList** Last = &Temp;
+                    if (WS == TOK_WHITESPACE)
+                        Last = AddToken(Last, &WSToken);
+                    AddToken(Last, &CurTok);
+                    assert(ReplaceNest < MAX_NEST);
+                    ReplaceStack[ReplaceNest].M  = 0;
+                    ReplaceStack[ReplaceNest].TL = Temp;
+                    ReplaceStack[ReplaceNest].Temp = Temp;
+                    ReplaceStack[ReplaceNest].Stop = 0;
+                    ++ReplaceNest;
+                } else {
+                    if (WS < ' ') {
+                        TokenQueuePush(&WSToken);
+                    }
+                    TokenQueuePush(&CurTok);
                 }
-                TokenQueuePush(&CurTok);
                 CurTok.Type = Id;
                 CurTok.Text = IdText[Id - TOK_ID];
                 return;
-- 
2.43.0


From 5e1f8d963e902fdf6cbb4db255dca352f73eef5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:05 +0000
Subject: [PATCH 079/145] fix: labels in unreachable expressions don't make the
 code reachable again

---
 scc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scc.c b/scc.c
index 3f287b6..fba2e75 100644
--- a/scc.c
+++ b/scc.c
@@ -2464,6 +2464,8 @@ void ParseExpr1(int OuterPrecedence)
     int LhsTypeExtra;
     int LhsVal;
     int LhsLoc;
+    const int WasDead = IsDeadCode;
+    IsDeadExpr += WasDead; // Labels in the expression can't be reached
     do {
         Op   = TokenType;
         Prec = OperatorPrecedence;
@@ -2726,6 +2728,7 @@ BinOpOut:
                 CurrentType = VT_INT|VT_UNSIGNED;
         }
     } while (OperatorPrecedence <= OuterPrecedence);
+    IsDeadExpr -= WasDead;
 }
 
 void ParseExpr(void)
-- 
2.43.0


From c0916b12811e85e7fbc8bf230d49b6b2f6a9aad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:56 +0000
Subject: [PATCH 080/145] fix: scpp: use of a function-like macro in its own
 argument

---
 scpp.c | 86 ++++++++++++++++++++++++++++++++++++++--------------------
 1 file changed, 56 insertions(+), 30 deletions(-)

diff --git a/scpp.c b/scpp.c
index 18f5ab2..13fe194 100644
--- a/scpp.c
+++ b/scpp.c
@@ -287,7 +287,7 @@ enum {
     ID_MAX          = 32,
     ID_HASH_MAX     = 128,  // Must be power of 2 and larger than ID_MAX
     TOKEN_DATA_MAX  = 2048,
-    MAX_NEST        = 10,   // Maximum nesting of replacments
+    MAX_NEST        = 20,   // Maximum nesting of replacments
     COND_MAX        = 16,
     TOKEN_LIST_MAX  = 128,
     TOKEN_QUEUE_MAX = 16,
@@ -399,6 +399,7 @@ struct TokenList* NextFreeTokenList;
 
 struct Argument {
     int Id;
+    int MacroIndex;
     struct Argument* Next;
     struct TokenList* Replacement;
 };
@@ -415,8 +416,10 @@ struct Macro Macros[MACRO_MAX];
 
 struct ReplaceStackElem {
     struct Macro* M;
+    struct Macro* ArgOf; // Macro that's available again inside its own argument
     struct TokenList* TL;
     struct TokenList* Temp; // Freed when done
+    struct TokenList* Saved; // Arguments of the enclosing use of M
     int Stop;
 } ReplaceStack[MAX_NEST];
 int ReplaceNest;
@@ -528,15 +531,21 @@ struct TokenList* SkipWsNL(struct TokenList* TL)
     return TL;
 }
 
-void FreeArgs(struct Argument* Args)
+void FreeArgs(struct Argument* Args, struct TokenList* Saved)
 {
     if (Args == (struct Argument*)1)
         return;
+    struct TokenList* S = Saved;
     while (Args) {
         FreeTokenList(Args->Replacement);
         Args->Replacement = 0;
+        if (S) {
+            Args->Replacement = (struct TokenList*)S->Tok.Text;
+            S = S->Next;
+        }
         Args = Args->Next;
     }
+    FreeTokenList(Saved);
 }
 
 void TokenQueuePush(struct Token* Tok)
@@ -615,10 +624,11 @@ void RawGetToken(void)
         }
         if (RS->M) {
             RS->M->Hide = 0;
-            FreeArgs(RS->M->Arguments);
+            FreeArgs(RS->M->Arguments, RS->Saved);
         }
+        if (RS->ArgOf)
+            RS->ArgOf->Hide = 1;
         FreeTokenList(RS->Temp);
-        RS->Temp = 0;
         --ReplaceNest;
         if (Debug) printf("Popped replacement list (Stop=%d)\n", RS->Stop);
         if (RS->Stop) {
@@ -880,16 +890,27 @@ void RawSkipWS(void)
 
 void Stringify(struct TokenList* TL);
 
-void PushHandleArg(struct Argument* A)
+struct ReplaceStackElem* PushReplacement(struct TokenList* TL)
+{
+    assert(ReplaceNest < MAX_NEST);
+    struct ReplaceStackElem* RS = &ReplaceStack[ReplaceNest++];
+    memset(RS, 0, sizeof(*RS));
+    RS->TL = TL;
+    return RS;
+}
+
+struct ReplaceStackElem* PushHandleArg(struct Argument* A)
 {
     if (Debug) {
         printf("Handling arg %s\n", IdText[A->Id-TOK_ID]);
     }
-    assert(ReplaceNest < MAX_NEST);
-    ReplaceStack[ReplaceNest].M  = 0;
-    ReplaceStack[ReplaceNest].TL = A->Replacement;
-    ReplaceStack[ReplaceNest].Stop = 0;
-    ++ReplaceNest;
+    struct ReplaceStackElem* RS = PushReplacement(A->Replacement);
+    struct Macro* M = &Macros[A->MacroIndex];
+    if (M->Hide == 1) {
+        M->Hide = 0;
+        RS->ArgOf = M;
+    }
+    return RS;
 }
 
 struct Argument* GetArg(int Id)
@@ -963,22 +984,24 @@ void GetToken(void)
         const int Id = CurTok.Type;
         struct Argument* A = GetArg(Id);
         if (A) {
-            assert(ReplaceNest < MAX_NEST);
-            ReplaceStack[ReplaceNest].M  = 0;
-            ReplaceStack[ReplaceNest].TL = A->Replacement;
-            ReplaceStack[ReplaceNest].Stop = 0;
-            ++ReplaceNest;
+            PushHandleArg(A);
             continue;
         }
         struct Macro* M = &Macros[Id - TOK_USER_ID];
         if (M->Hide)
             return;
         if (Debug) printf("Start expanding macro %s\n", IdText[Id-TOK_ID]);
+        struct TokenList* Saved = 0;
         if (M->Arguments) {
+            // Used inside its own argument?
+            const int Nest0 = ReplaceNest;
+            int Outer = 0;
+            while (Outer < Nest0 && ReplaceStack[Outer].M != M)
+                ++Outer;
             RawGetToken();
             int WS = CurTok.Type;
             RawSkipWS();
-            if (CurTok.Type != '(') {
+            if (CurTok.Type != '(' || (Outer < Nest0 && ReplaceNest < Nest0)) {
                 // Undo consumption of ID and any whitespace
                 struct Token WSToken;
                 WSToken.Type = WS;
@@ -989,12 +1012,7 @@ void GetToken(void)
                     if (WS == TOK_WHITESPACE)
                         Last = AddToken(Last, &WSToken);
                     AddToken(Last, &CurTok);
-                    assert(ReplaceNest < MAX_NEST);
-                    ReplaceStack[ReplaceNest].M  = 0;
-                    ReplaceStack[ReplaceNest].TL = Temp;
-                    ReplaceStack[ReplaceNest].Temp = Temp;
-                    ReplaceStack[ReplaceNest].Stop = 0;
-                    ++ReplaceNest;
+                    PushReplacement(Temp)->Temp = Temp;
                 } else {
                     if (WS < ' ') {
                         TokenQueuePush(&WSToken);
@@ -1005,6 +1023,16 @@ void GetToken(void)
                 CurTok.Text = IdText[Id - TOK_ID];
                 return;
             }
+            if (Outer < Nest0) {
+                struct TokenList** Last = &Saved;
+                for (A = M->Arguments; A; A = A->Next) {
+                    struct Token T;
+                    T.Type = TOK_ARG;
+                    T.Text = (char*)A->Replacement;
+                    Last = AddToken(Last, &T);
+                    A->Replacement = 0;
+                }
+            }
             RawGetToken();
             RawSkipWS();
             if (CurTok.Type != ')') {
@@ -1046,14 +1074,12 @@ void GetToken(void)
         }
         if (Debug) printf("Start expanding macro body of %s\n", IdText[Id-TOK_ID]);
         if (M->Replacement) {
-            assert(ReplaceNest < MAX_NEST);
-            ReplaceStack[ReplaceNest].M  = M;
-            ReplaceStack[ReplaceNest].TL = M->Replacement;
-            ReplaceStack[ReplaceNest].Stop = 0;
+            struct ReplaceStackElem* RS = PushReplacement(M->Replacement);
+            RS->M = M;
+            RS->Saved = Saved;
             M->Hide = 1;
-            ++ReplaceNest;
         } else {
-            FreeArgs(M->Arguments);
+            FreeArgs(M->Arguments, Saved);
         }
     }
 }
@@ -1080,8 +1106,7 @@ void Stringify(struct TokenList* TL)
         if (CurTok.Type == TOK_ARG) {
             ++FromS;
             if (Debug) printf("Switching to arg list FromS=%d\n", FromS);
-            PushHandleArg((struct Argument*)CurTok.Text);
-            ReplaceStack[ReplaceNest-1].Stop = 1;
+            PushHandleArg((struct Argument*)CurTok.Text)->Stop = 1;
             continue;
         }
 
@@ -1148,6 +1173,7 @@ void HandleDefine(void)
             }
             assert(ArgumentCount < ARGUMENT_MAX);
             Argument[ArgumentCount].Id = CurTok.Type;
+            Argument[ArgumentCount].MacroIndex = (int)(M - Macros);
             *LastArg = &Argument[ArgumentCount];
             LastArg = &Argument[ArgumentCount].Next;
             ++ArgumentCount;
-- 
2.43.0


From 657876e8cf8adcd17157dfe1ca1fc44d1f6fb138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:00 +0000
Subject: [PATCH 081/145] fix: scpp: ## giving the name of a parameter

---
 scpp.c | 29 ++---------------------------
 1 file changed, 2 insertions(+), 27 deletions(-)

diff --git a/scpp.c b/scpp.c
index 13fe194..e47f0a1 100644
--- a/scpp.c
+++ b/scpp.c
@@ -913,28 +913,7 @@ struct ReplaceStackElem* PushHandleArg(struct Argument* A)
     return RS;
 }
 
-struct Argument* GetArg(int Id)
-{
-    if (ReplaceNest && ReplaceStack[ReplaceNest-1].M) {
-        struct Argument* A = ReplaceStack[ReplaceNest-1].M->Arguments;
-        if (A == (struct Argument*)1)
-            return 0;
-        for (; A; A = A->Next) {
-            if (A->Id == Id) {
-                if (Debug) {
-                    printf("Matched argument %s\n", IdText[Id-TOK_ID]);
-                    struct TokenList* TL = A->Replacement;
-                    while (TL) {
-                        printf("\t"); PrintToken(&TL->Tok); printf("\n");
-                        TL = TL->Next;
-                    }
-                }
-                return A;
-            }
-        }
-    }
-    return 0;
-}
+
 
 void GetToken(void)
 {
@@ -982,11 +961,7 @@ void GetToken(void)
             return;
         }
         const int Id = CurTok.Type;
-        struct Argument* A = GetArg(Id);
-        if (A) {
-            PushHandleArg(A);
-            continue;
-        }
+        struct Argument* A;
         struct Macro* M = &Macros[Id - TOK_USER_ID];
         if (M->Hide)
             return;
-- 
2.43.0


From 103d3e6cd6c34a2ac04ffca2efe4245cd5a36aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:56 +0000
Subject: [PATCH 082/145] fix: scpp: # with string and character literals in
 the argument

---
 scpp.c | 51 +++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 12 deletions(-)

diff --git a/scpp.c b/scpp.c
index e47f0a1..a72f382 100644
--- a/scpp.c
+++ b/scpp.c
@@ -888,7 +888,7 @@ void RawSkipWS(void)
         RawGetToken();
 }
 
-void Stringify(struct TokenList* TL);
+void Stringify(struct Argument* A);
 
 struct ReplaceStackElem* PushReplacement(struct TokenList* TL)
 {
@@ -930,7 +930,7 @@ void GetToken(void)
             RawGetToken();
             RawSkipWS();
             assert(CurTok.Type == TOK_ARG);
-            Stringify(((struct Argument*)CurTok.Text)->Replacement);
+            Stringify((struct Argument*)CurTok.Text);
             return;
         case TOK_ARG:
             PushHandleArg((struct Argument*)CurTok.Text);
@@ -947,7 +947,7 @@ void GetToken(void)
                     assert(NextTokenDataPos <= TOKEN_DATA_MAX-12);
                     char* T = &TokenData[NextTokenDataPos];
                     sprintf(T, "%d", Line);
-                    NextTokenDataPos += (int)strlen(T) + 1;
+                    TokenDataPos = NextTokenDataPos += (int)strlen(T) + 1;
                     CurTok.Text = T;
                     CurTok.Type = TOK_NUM;
                 } else if (CurTok.Type == TOK___FILE__) {
@@ -1059,10 +1059,26 @@ void GetToken(void)
     }
 }
 
-char StrBuf[256]; // HACK HACK
+int AddQuote(char* D, int Type)
+{
+    if (Type == TOK_CHARLIT) {
+        *D = '\'';
+        return 1;
+    } else if (Type == TOK_STRLIT) {
+        *D++ = '\\';
+        *D = '"';
+        return 2;
+    }
+    return 0;
+}
 
-void Stringify(struct TokenList* TL)
+void Stringify(struct Argument* A)
 {
+    char StrBuf[256];
+    struct TokenList* TL = A->Replacement;
+    struct Macro* M = &Macros[A->MacroIndex];
+    const char Hide = M->Hide;
+    M->Hide = 0; // Not hidden in its own argument
     int StrPos = 0;
     int PendWS = 0;
     int FromS = 0;
@@ -1094,17 +1110,28 @@ void Stringify(struct TokenList* TL)
                 StrBuf[StrPos++] = ' ';
                 PendWS = 0;
             }
-            const int l = (int)strlen(CurTok.Text);
-            assert(StrPos+l < (int)sizeof(StrBuf));
-            memcpy(&StrBuf[StrPos], CurTok.Text, l);
-            StrPos += l;
+            const int Lit = CurTok.Type == TOK_STRLIT || CurTok.Type == TOK_CHARLIT;
+            const char* T = CurTok.Text;
+            assert(StrPos < (int)sizeof(StrBuf)-4);
+            StrPos += AddQuote(&StrBuf[StrPos], CurTok.Type);
+            while (*T) {
+                assert(StrPos < (int)sizeof(StrBuf)-4);
+                if (Lit && (*T == '"' || *T == '\\'))
+                    StrBuf[StrPos++] = '\\';
+                StrBuf[StrPos++] = *T++;
+            }
+            StrPos += AddQuote(&StrBuf[StrPos], CurTok.Type);
         }
     }
-    assert(StrPos < (int)sizeof(StrBuf));
-    StrBuf[StrPos] = 0;
+    M->Hide = Hide;
+    StrBuf[StrPos++] = 0;
 
+    // Preserve the string
+    assert(NextTokenDataPos <= TOKEN_DATA_MAX-StrPos);
     CurTok.Type = TOK_STRLIT;
-    CurTok.Text = StrBuf;
+    CurTok.Text = &TokenData[NextTokenDataPos];
+    memcpy(&TokenData[NextTokenDataPos], StrBuf, StrPos);
+    TokenDataPos = NextTokenDataPos += StrPos;
 }
 
 void HandleDefine(void)
-- 
2.43.0


From ce4afe42812ff7dd163de26084a42194c976f90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:19 +0000
Subject: [PATCH 083/145] fix: scpp: reuse the space of tokens after a macro
 expansion

---
 scpp.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scpp.c b/scpp.c
index a72f382..74d21ce 100644
--- a/scpp.c
+++ b/scpp.c
@@ -370,6 +370,7 @@ const char* CurFileBuf;
 char TokenData[TOKEN_DATA_MAX];
 int TokenDataPos;
 int NextTokenDataPos; // Bump this to avoid the current token being overwritten
+int PermTokenDataPos; // End of data needed after the current macro expansion
 
 const char* IdText[ID_MAX];
 unsigned IdHash[ID_HASH_MAX];
@@ -940,6 +941,8 @@ void GetToken(void)
         }
 
         ReplaceId();
+        if (!ReplaceNest && CurTok.Type >= TOK_ID)
+            NextTokenDataPos = PermTokenDataPos; // Not needed anymore
         if (CurTok.Type < TOK_USER_ID) {
             if (CurTok.Type > TOK_DEFINED) {
                 if (Debug) printf("Special token! %s\n", CurTok.Text);
@@ -1479,6 +1482,7 @@ void HandleDirective(void)
         return;
     }
     ReplaceId();
+    NextTokenDataPos = PermTokenDataPos;
     const int Directive = CurTok.Type;
     assert(Directive < TOK_USER_ID);
 
@@ -1486,8 +1490,10 @@ void HandleDirective(void)
 
     if (Directive == TOK_DEFINE) {
         if (CondActive()) HandleDefine();
+        PermTokenDataPos = NextTokenDataPos;
     } else if (Directive == TOK_INCLUDE) {
         if (CondActive()) HandleInclude();
+        PermTokenDataPos = NextTokenDataPos;
     } else if (Directive == TOK_UNDEF) {
         if (CondActive()) {
             RawGetToken();
-- 
2.43.0


From 88eeea85b13cb79a07b83d84221fa20541f1b474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:53 +0000
Subject: [PATCH 084/145] fix: scpp: tokens joined at the ends of a macro
 expansion

---
 scpp.c | 42 +++++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/scpp.c b/scpp.c
index 74d21ce..dfe930d 100644
--- a/scpp.c
+++ b/scpp.c
@@ -424,6 +424,7 @@ struct ReplaceStackElem {
     int Stop;
 } ReplaceStack[MAX_NEST];
 int ReplaceNest;
+int Boundary; // Non-zero if the current token might not have followed the last one directly in the source
 
 enum {
     COND_TRUE,        // In active block
@@ -631,6 +632,7 @@ void RawGetToken(void)
             RS->ArgOf->Hide = 1;
         FreeTokenList(RS->Temp);
         --ReplaceNest;
+        Boundary = 1;
         if (Debug) printf("Popped replacement list (Stop=%d)\n", RS->Stop);
         if (RS->Stop) {
             CurTok.Type = TOK_EOF;
@@ -641,6 +643,7 @@ void RawGetToken(void)
     if (TokenQueueHead != TokenQueueTail) {
         CurTok = TokenQueue[TokenQueueHead++ % TOKEN_QUEUE_MAX];
         CurHash = ID_HASH_MAX;
+        Boundary = 1;
         return;
     }
 
@@ -897,6 +900,7 @@ struct ReplaceStackElem* PushReplacement(struct TokenList* TL)
     struct ReplaceStackElem* RS = &ReplaceStack[ReplaceNest++];
     memset(RS, 0, sizeof(*RS));
     RS->TL = TL;
+    Boundary = 1;
     return RS;
 }
 
@@ -1058,6 +1062,7 @@ void GetToken(void)
             M->Hide = 1;
         } else {
             FreeArgs(M->Arguments, Saved);
+            Boundary = 1;
         }
     }
 }
@@ -1575,6 +1580,19 @@ void OutputStr(const char* Str)
     OutFile->BufPtr = Buf;
 }
 
+// Tokens ending/starting with characters of the same (non-zero) class could be read as one
+int CharClass(int Ch)
+{
+    if ((IsIdChar[(unsigned char)Ch>>3]>>(Ch&7)) & 1)
+        return 1;
+    switch (Ch) {
+    case '!': case '#': case '%': case '&': case '*': case '+': case '-':
+    case '.': case '/': case '<': case '=': case '>': case '^': case '|':
+        return 2;
+    }
+    return 0;
+}
+
 void PPMain(void)
 {
     ReadChar();
@@ -1584,6 +1602,7 @@ void PPMain(void)
     int WS = WS_NONE;
     int StartOfLine = 1;
     int Active = 1;
+    int LastClass = 0;
     for (;;) {
         switch (CurTok.Type) {
         case '#':
@@ -1636,6 +1655,11 @@ void PPMain(void)
             GetToken();
             continue;
         }
+        const int Lit = CurTok.Type == TOK_STRLIT || CurTok.Type == TOK_CHARLIT;
+        if (Boundary && !Lit && LastClass && LastClass == CharClass(*CurTok.Text))
+            WS |= WS_NORMAL;
+        Boundary = 0;
+        LastClass = 0;
         if (WS) {
             if (WS & WS_NEWLINE) {
                 OutputStr("\r\n");
@@ -1644,18 +1668,14 @@ void PPMain(void)
             }
             WS = 0;
         }
-        switch (CurTok.Type) {
-        case TOK_STRLIT:
-        case TOK_CHARLIT:
-            {
-                const char* S = CurTok.Type == TOK_STRLIT ? "\"" : "'";
-                OutputStr(S);
-                OutputStr(CurTok.Text);
-                OutputStr(S);
-            }
-            break;
-        default:
+        if (Lit) {
+            const char* S = CurTok.Type == TOK_STRLIT ? "\"" : "'";
+            OutputStr(S);
+            OutputStr(CurTok.Text);
+            OutputStr(S);
+        } else {
             OutputStr(CurTok.Text);
+            LastClass = CharClass(CurTok.Text[strlen(CurTok.Text)-1]);
         }
         GetToken();
     }
-- 
2.43.0


From 90ac7b7dc4275610e8eb8f20a701bd71873ad3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:57 +0000
Subject: [PATCH 085/145] fix: scpp: tokens after the name of a function-like
 macro

---
 scpp.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/scpp.c b/scpp.c
index dfe930d..1e5c38c 100644
--- a/scpp.c
+++ b/scpp.c
@@ -497,6 +497,8 @@ int TryExtendOp(int Ch, int NewType)
     return 0;
 }
 
+int InDirective;
+
 struct TokenList** AddToken(struct TokenList** L, struct Token* Tok)
 {
     assert(NextFreeTokenList);
@@ -980,23 +982,26 @@ void GetToken(void)
             int Outer = 0;
             while (Outer < Nest0 && ReplaceStack[Outer].M != M)
                 ++Outer;
-            RawGetToken();
-            int WS = CurTok.Type;
-            RawSkipWS();
+            struct Token WSToken;
+            WSToken.Type = 0;
+            for (;;) {
+                RawGetToken();
+                if (CurTok.Type != TOK_WHITESPACE && (CurTok.Type != TOK_NEWLINE || InDirective))
+                    break;
+                WSToken = CurTok;
+            }
             if (CurTok.Type != '(' || (Outer < Nest0 && ReplaceNest < Nest0)) {
                 // Undo consumption of ID and any whitespace
-                struct Token WSToken;
-                WSToken.Type = WS;
                 if (ReplaceNest) {
                     // To be returned before the rest of the replacement list
                     struct TokenList* Temp = 0;
                     struct TokenList** Last = &Temp;
-                    if (WS == TOK_WHITESPACE)
+                    if (WSToken.Type)
                         Last = AddToken(Last, &WSToken);
                     AddToken(Last, &CurTok);
                     PushReplacement(Temp)->Temp = Temp;
                 } else {
-                    if (WS < ' ') {
+                    if (WSToken.Type) {
                         TokenQueuePush(&WSToken);
                     }
                     TokenQueuePush(&CurTok);
@@ -1490,6 +1495,7 @@ void HandleDirective(void)
     NextTokenDataPos = PermTokenDataPos;
     const int Directive = CurTok.Type;
     assert(Directive < TOK_USER_ID);
+    InDirective = 1;
 
     if (Debug) printf("Processing directive %s (CondActive=%d)\n", IdText[Directive-TOK_ID], CondActive());
 
@@ -1565,6 +1571,7 @@ void HandleDirective(void)
     while (CurTok.Type != TOK_NEWLINE) {
         RawGetToken();
     }
+    InDirective = 0;
 }
 
 void OutputStr(const char* Str)
-- 
2.43.0


From bc386c2e131bfcdce3720e78694c710029e6ccd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:02 +0000
Subject: [PATCH 086/145] fix: scpp: names of macros that aren't expanded in
 #if

---
 scpp.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/scpp.c b/scpp.c
index 1e5c38c..f2edeaf 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1326,8 +1326,7 @@ int EvalUnary(void)
     }
 
     if (CurTok.Type >= TOK_USER_ID) {
-        // Undefined macro - evaluate as zero
-        assert(Macros[CurTok.Type - TOK_USER_ID].Hide == 2);
+        // Undefined or not expanded macro - evaluate as zero
         GetToken();
         return 0;
     }
-- 
2.43.0


From 6f945aee862504f47c34437c70c871401c58618a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 087/145] fix: scpp: missing #endif

---
 scpp.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scpp.c b/scpp.c
index f2edeaf..b71c14c 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1632,6 +1632,10 @@ void PPMain(void)
             CloseFile();
             CurFile = &Files[NumFiles-1];
             if (NumFiles == 1) {
+                if (CondCount) {
+                    printf("Missing #endif\n");
+                    exit(1);
+                }
                 return;
             }
             CurrentChar = CurFile->LastChar;
-- 
2.43.0


From 2457e9f90ecc1f4d8ce6d3f66eef2963a84f7c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:21 +0000
Subject: [PATCH 088/145] fix: scpp: unterminated literals

---
 scpp.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scpp.c b/scpp.c
index b71c14c..913dd6d 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1665,6 +1665,10 @@ void PPMain(void)
             GetToken();
             continue;
         }
+        if (CurTok.Type == TOK_INVALID_LIT) {
+            printf("Unterminated literal in %s:%d\n", CurFile->Filename, Line);
+            exit(1);
+        }
         const int Lit = CurTok.Type == TOK_STRLIT || CurTok.Type == TOK_CHARLIT;
         if (Boundary && !Lit && LastClass && LastClass == CharClass(*CurTok.Text))
             WS |= WS_NORMAL;
-- 
2.43.0


From 7e6cf6d264b3068b0db45d308a437bab8f27d862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:10 +0000
Subject: [PATCH 089/145] fix: scpp: comments are white space, as around the
 operand of defined

---
 scpp.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/scpp.c b/scpp.c
index 913dd6d..13c59ad 100644
--- a/scpp.c
+++ b/scpp.c
@@ -678,7 +678,8 @@ Restart:
                 ReadChar();
             }
             ReadChar();
-            goto Restart;
+            CurTok.Type = TOK_WHITESPACE;
+            return;
         }
         CurTok.Type = '/';
         assert(TokenDataPos < TOKEN_DATA_MAX);
@@ -1304,7 +1305,8 @@ int EvalUnary(void)
     } else if (CurTok.Type == TOK_RAW_ID) {
         GetToken();
         return 0;
-    } else if (Accept(TOK_DEFINED)) {
+    } else if (CurTok.Type == TOK_DEFINED) {
+        RawGetToken(); // Don't expand macros
         RawSkipWS();
         int Par = 0;
         if (CurTok.Type == '(') {
@@ -1315,7 +1317,10 @@ int EvalUnary(void)
         ReplaceId();
         n = IsDefined(CurTok.Type);
         GetToken();
-        if (Par) Expect(')');
+        if (Par) {
+            SkipWS();
+            Expect(')');
+        }
         return n;
     } else if (Accept('!')) {
         return !EvalUnary();
@@ -1657,7 +1662,8 @@ void PPMain(void)
 
         switch (CurTok.Type) {
         case TOK_WHITESPACE:
-            WS |= WS_NORMAL;
+            if (!StartOfLine)
+                WS |= WS_NORMAL;
             GetToken();
             continue;
         case TOK_NEWLINE:
-- 
2.43.0


From b266064a501823a96f05d1e9fda2b1f6685be339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:15 +0000
Subject: [PATCH 090/145] fix: scpp: included file that doesn't end in a
 newline

---
 scpp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scpp.c b/scpp.c
index 13c59ad..5ffae8e 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1646,6 +1646,7 @@ void PPMain(void)
             CurrentChar = CurFile->LastChar;
             CurFileBuf  = CurFile->BufPtr;
             StartOfLine = 1;
+            WS |= WS_NEWLINE; // In case the last line wasn't terminated
             GetToken();
             continue;
         }
-- 
2.43.0


From f799ae98e8d925cc91af432b10c32a3b0a91061c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:18 +0000
Subject: [PATCH 091/145] fix: scpp: arguments are macro replaced on their own,
 and # and ## use the original tokens

---
 scpp.c | 477 +++++++++++++++++++++++++++++++--------------------------
 1 file changed, 259 insertions(+), 218 deletions(-)

diff --git a/scpp.c b/scpp.c
index 5ffae8e..628cccd 100644
--- a/scpp.c
+++ b/scpp.c
@@ -289,9 +289,10 @@ enum {
     TOKEN_DATA_MAX  = 2048,
     MAX_NEST        = 20,   // Maximum nesting of replacments
     COND_MAX        = 16,
-    TOKEN_LIST_MAX  = 128,
+    TOKEN_LIST_MAX  = 512,
     TOKEN_QUEUE_MAX = 16,
     ARGUMENT_MAX    = 32,
+    MAX_ARGS        = 16,
     FILES_MAX       = 4,
     FILE_BUF_SIZE   = 512,
     FNAME_MAX       = 64,
@@ -318,6 +319,8 @@ enum {
     TOK_INVALID_LIT, // Unterminated string literal
 
     TOK_ARG, // Text points to arguments
+    TOK_STRINGIFY, // # in function-like macro
+    TOK_BOUNDARY, // Tokens before and after didn't follow directly in the source
 
     TOK_CREATED_OP = 128,
     TOK_HASHHASH,
@@ -400,9 +403,9 @@ struct TokenList* NextFreeTokenList;
 
 struct Argument {
     int Id;
-    int MacroIndex;
     struct Argument* Next;
-    struct TokenList* Replacement;
+    struct TokenList* Raw; // Used for operands of # and ##
+    struct TokenList* Replacement; // Completely macro replaced
 };
 struct Argument Argument[ARGUMENT_MAX];
 int ArgumentCount;
@@ -417,10 +420,8 @@ struct Macro Macros[MACRO_MAX];
 
 struct ReplaceStackElem {
     struct Macro* M;
-    struct Macro* ArgOf; // Macro that's available again inside its own argument
     struct TokenList* TL;
     struct TokenList* Temp; // Freed when done
-    struct TokenList* Saved; // Arguments of the enclosing use of M
     int Stop;
 } ReplaceStack[MAX_NEST];
 int ReplaceNest;
@@ -535,21 +536,18 @@ struct TokenList* SkipWsNL(struct TokenList* TL)
     return TL;
 }
 
-void FreeArgs(struct Argument* Args, struct TokenList* Saved)
+void FreeArgs(struct Argument* Args)
 {
     if (Args == (struct Argument*)1)
         return;
-    struct TokenList* S = Saved;
     while (Args) {
-        FreeTokenList(Args->Replacement);
+        FreeTokenList(Args->Raw);
+        if (Args->Replacement != Args->Raw)
+            FreeTokenList(Args->Replacement);
+        Args->Raw = 0;
         Args->Replacement = 0;
-        if (S) {
-            Args->Replacement = (struct TokenList*)S->Tok.Text;
-            S = S->Next;
-        }
         Args = Args->Next;
     }
-    FreeTokenList(Saved);
 }
 
 void TokenQueuePush(struct Token* Tok)
@@ -558,47 +556,112 @@ void TokenQueuePush(struct Token* Tok)
     TokenQueue[TokenQueueTail++ % TOKEN_QUEUE_MAX] = *Tok;
 }
 
-struct Token* SimpleExpand(struct Token* Tok)
+void PrintToken(const struct Token* T);
+
+void PasteToken(struct Token* Dest, struct Token* Tok)
 {
-    while (Tok->Type == TOK_ARG) {
-        const struct Argument* A = (const struct Argument*)Tok->Text;
-        if (!A->Replacement)
-            return 0;
-        assert(!A->Replacement->Next);
-        Tok = &A->Replacement->Tok;
+    if (Debug) { printf("Paste "); PrintToken(Tok); printf(" to "); PrintToken(Dest); printf("\n"); }
+    const int l1 = (int)strlen(Dest->Text);
+    const int l2 = (int)strlen(Tok->Text) + 1;
+    assert(TokenDataPos+l1+l2 < TOKEN_DATA_MAX);
+    memcpy(&TokenData[TokenDataPos], Dest->Text, l1);
+    memcpy(&TokenData[TokenDataPos+l1], Tok->Text, l2);
+    Dest->Text = &TokenData[TokenDataPos];
+    TokenDataPos+=l1+l2;
+    NextTokenDataPos = TokenDataPos;
+    if (Dest->Type >= TOK_RAW_ID)
+        Dest->Type = TOK_RAW_ID;
+    else if (Dest->Type > ' ')
+        Dest->Type = TOK_CREATED_OP;
+    if (Debug) { printf(" --> "); PrintToken(Dest); printf("\n"); }
+}
+
+// Append operand of ## to list
+void PasteAppend(struct TokenList** L, struct Token* Tok)
+{
+    struct TokenList* Arg = 0;
+    if (Tok->Type == TOK_ARG) {
+        Arg = ((struct Argument*)Tok->Text)->Raw;
+        if (!Arg)
+            return;
+        Tok = &Arg->Tok;
+        Arg = Arg->Next;
+    }
+    if (*L) {
+        while ((*L)->Next)
+            L = &(*L)->Next;
+        PasteToken(&(*L)->Tok, Tok);
+    } else {
+        AddToken(L, Tok);
+    }
+    L = &(*L)->Next;
+    while (Arg) {
+        L = AddToken(L, &Arg->Tok);
+        Arg = Arg->Next;
     }
-    return Tok;
 }
 
-void PrintToken(const struct Token* T);
+struct ReplaceStackElem* PushReplacement(struct TokenList* TL)
+{
+    assert(ReplaceNest < MAX_NEST);
+    struct ReplaceStackElem* RS = &ReplaceStack[ReplaceNest++];
+    memset(RS, 0, sizeof(*RS));
+    RS->TL = TL;
+    Boundary = 1;
+    return RS;
+}
 
-void PasteAppend(struct Token* Tok)
+int AddQuote(char* D, int Type)
 {
-    struct Token* First = SimpleExpand(&CurTok);
-    Tok = SimpleExpand(Tok);
-    if (!First) {
-        if (Tok) {
-            CurTok = *Tok;
-        } else {
-            CurTok.Type = TOK_WHITESPACE;
-            CurTok.Text = "";
-        }
-        return;
+    if (Type == TOK_CHARLIT) {
+        *D = '\'';
+        return 1;
+    } else if (Type == TOK_STRLIT) {
+        *D++ = '\\';
+        *D = '"';
+        return 2;
     }
-    CurTok = *First;
-    if (Debug) { printf("Paste "); if(Tok)PrintToken(Tok); printf(" to "); PrintToken(&CurTok); printf("\n"); }
-    const char* T2 = Tok ? Tok->Text : "";
-    const int l1 = (int)strlen(CurTok.Text);
-    const int l2 = (int)strlen(T2) + 1;
-    assert(TokenDataPos+l1+l2 < TOKEN_DATA_MAX);
-    memcpy(&TokenData[TokenDataPos], CurTok.Text, l1);
-    memcpy(&TokenData[TokenDataPos+l1], T2, l2);
-    CurTok.Text = &TokenData[TokenDataPos];
-    TokenDataPos+=l1+l2;
-    if (CurTok.Type > ' ' && CurTok.Type < TOK_RAW_ID) {
-        CurTok.Type = TOK_CREATED_OP;
+    return 0;
+}
+
+void Stringify(struct TokenList* TL)
+{
+    if (Debug) printf("Stringify!\n");
+    char StrBuf[256];
+    int StrPos = 0;
+    int PendWS = 0;
+    for (; TL; TL = TL->Next) {
+        CurTok = TL->Tok;
+        if (Debug) { printf("Stringifying: "); PrintToken(&CurTok); printf("\n"); }
+        if (CurTok.Type == TOK_WHITESPACE || CurTok.Type == TOK_NEWLINE) {
+            PendWS = 1;
+        } else if (CurTok.Type != TOK_BOUNDARY) {
+            if (PendWS) {
+                assert(StrPos < (int)sizeof(StrBuf));
+                StrBuf[StrPos++] = ' ';
+                PendWS = 0;
+            }
+            const int Lit = CurTok.Type == TOK_STRLIT || CurTok.Type == TOK_CHARLIT;
+            const char* T = CurTok.Text;
+            assert(StrPos < (int)sizeof(StrBuf)-4);
+            StrPos += AddQuote(&StrBuf[StrPos], CurTok.Type);
+            while (*T) {
+                assert(StrPos < (int)sizeof(StrBuf)-4);
+                if (Lit && (*T == '"' || *T == '\\'))
+                    StrBuf[StrPos++] = '\\';
+                StrBuf[StrPos++] = *T++;
+            }
+            StrPos += AddQuote(&StrBuf[StrPos], CurTok.Type);
+        }
     }
-    if (Debug) { printf(" --> "); PrintToken(&CurTok); printf("\n"); }
+    StrBuf[StrPos++] = 0;
+
+    // Preserve the string
+    assert(NextTokenDataPos <= TOKEN_DATA_MAX-StrPos);
+    CurTok.Type = TOK_STRLIT;
+    CurTok.Text = &TokenData[NextTokenDataPos];
+    memcpy(&TokenData[NextTokenDataPos], StrBuf, StrPos);
+    TokenDataPos = NextTokenDataPos += StrPos;
 }
 
 const char IsIdChar[] = "\x00\x00\x00\x00\x00\x00\xFF\x03\xFE\xFF\xFF\x87\xFE\xFF\xFF\x07\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00";
@@ -611,15 +674,37 @@ void RawGetToken(void)
         if (RS->TL) {
             CurTok = RS->TL->Tok;
             RS->TL = RS->TL->Next;
+            if (RS->Temp)
+                Boundary = 1;
 
             // Look for paste operation
             struct TokenList* TL = SkipWsNL(RS->TL);
-            while (TL && TL->Tok.Type == TOK_HASHHASH) {
-                TL = SkipWsNL(TL->Next);
-                assert(TL);
-                PasteAppend(&TL->Tok);
-                TL = SkipWsNL(TL->Next);
-                RS->TL = TL;
+            if (RS->M && TL && TL->Tok.Type == TOK_HASHHASH) {
+                struct TokenList* L = 0;
+                PasteAppend(&L, &CurTok);
+                do {
+                    TL = SkipWsNL(TL->Next);
+                    assert(TL);
+                    PasteAppend(&L, &TL->Tok);
+                    RS->TL = TL->Next;
+                    TL = SkipWsNL(RS->TL);
+                } while (TL && TL->Tok.Type == TOK_HASHHASH);
+                PushReplacement(L)->Temp = L;
+                continue;
+            }
+
+            if (CurTok.Type == TOK_ARG) {
+                PushReplacement(((struct Argument*)CurTok.Text)->Replacement);
+                continue;
+            }
+            if (CurTok.Type == TOK_BOUNDARY) {
+                Boundary = 1;
+                continue;
+            }
+            if (CurTok.Type == TOK_STRINGIFY) {
+                assert(TL && TL->Tok.Type == TOK_ARG);
+                RS->TL = TL->Next;
+                Stringify(((struct Argument*)TL->Tok.Text)->Raw);
             }
 
             CurHash = ID_HASH_MAX;
@@ -628,10 +713,8 @@ void RawGetToken(void)
         }
         if (RS->M) {
             RS->M->Hide = 0;
-            FreeArgs(RS->M->Arguments, RS->Saved);
+            FreeArgs(RS->M->Arguments);
         }
-        if (RS->ArgOf)
-            RS->ArgOf->Hide = 1;
         FreeTokenList(RS->Temp);
         --ReplaceNest;
         Boundary = 1;
@@ -895,57 +978,103 @@ void RawSkipWS(void)
         RawGetToken();
 }
 
-void Stringify(struct Argument* A);
 
-struct ReplaceStackElem* PushReplacement(struct TokenList* TL)
+
+void GetToken(void);
+
+// Tokens ending/starting with characters of the same (non-zero) class could be read as one
+int CharClass(int Ch)
 {
-    assert(ReplaceNest < MAX_NEST);
-    struct ReplaceStackElem* RS = &ReplaceStack[ReplaceNest++];
-    memset(RS, 0, sizeof(*RS));
-    RS->TL = TL;
-    Boundary = 1;
-    return RS;
+    if ((IsIdChar[(unsigned char)Ch>>3]>>(Ch&7)) & 1)
+        return 1;
+    switch (Ch) {
+    case '!': case '#': case '%': case '&': case '*': case '+': case '-':
+    case '.': case '/': case '<': case '=': case '>': case '^': case '|':
+        return 2;
+    }
+    return 0;
 }
 
-struct ReplaceStackElem* PushHandleArg(struct Argument* A)
+int IsLiteral(void)
 {
-    if (Debug) {
-        printf("Handling arg %s\n", IdText[A->Id-TOK_ID]);
-    }
-    struct ReplaceStackElem* RS = PushReplacement(A->Replacement);
-    struct Macro* M = &Macros[A->MacroIndex];
-    if (M->Hide == 1) {
-        M->Hide = 0;
-        RS->ArgOf = M;
+    return CurTok.Type == TOK_STRLIT || CurTok.Type == TOK_CHARLIT;
+}
+
+int EndClass(void)
+{
+    return IsLiteral() || !*CurTok.Text ? 0 : CharClass(CurTok.Text[strlen(CurTok.Text)-1]);
+}
+
+int MayJoin(int LastClass)
+{
+    return Boundary && LastClass && !IsLiteral() && LastClass == CharClass(*CurTok.Text);
+}
+
+struct TokenList** AddArgToken(struct TokenList** L, int PendWS, int LastClass)
+{
+    struct Token WSTok;
+    if (PendWS == 1) {
+        WSTok.Type = TOK_WHITESPACE;
+        L = AddToken(L, &WSTok);
+    } else if (MayJoin(LastClass)) {
+        WSTok.Type = TOK_BOUNDARY;
+        L = AddToken(L, &WSTok);
     }
-    return RS;
+    Boundary = 0;
+    assert(TokenDataPos >= NextTokenDataPos);
+    NextTokenDataPos = TokenDataPos; // Preserve the token data
+    return AddToken(L, &CurTok);
 }
 
+void ExpandArg(struct TokenList** L, struct TokenList* Raw)
+{
+    int PendWS = -1;
+    int LastClass = 0;
+    struct TokenList* TL = Raw;
+    while (TL && TL->Tok.Type != TOK_RAW_ID)
+        TL = TL->Next;
+    if (!TL) {
+        *L = Raw; // Nothing to replace
+        return;
+    }
+    PushReplacement(Raw)->Stop = 1;
+    for (;;) {
+        GetToken();
+        if (!CurTok.Type)
+            break;
+        if (CurTok.Type == TOK_WHITESPACE || CurTok.Type == TOK_NEWLINE) {
+            if (PendWS == 0) PendWS = 1;
+            continue;
+        }
+        L = AddArgToken(L, PendWS, LastClass);
+        LastClass = EndClass();
+        PendWS = 0;
+    }
+    *L = 0;
+}
 
+// Is the parameter used in other ways than as an operand of # or ##?
+int IsReplaced(struct TokenList* TL, struct Argument* A)
+{
+    int Last = 0;
+    while (TL) {
+        const int T = TL->Tok.Type;
+        const char* Text = TL->Tok.Text;
+        TL = SkipWsNL(TL->Next);
+        if (T == TOK_ARG && Text == (char*)A && Last != TOK_STRINGIFY && Last != TOK_HASHHASH && (!TL || TL->Tok.Type != TOK_HASHHASH))
+            return 1;
+        Last = T;
+    }
+    return 0;
+}
 
 void GetToken(void)
 {
     for (;;) {
         RawGetToken();
 
-        switch (CurTok.Type) {
-        case TOK_RAW_ID:
-            break;
-        case '#':
-            if (!ReplaceNest)
-                return;
-            if (Debug) printf("Stringify!\n");
-            RawGetToken();
-            RawSkipWS();
-            assert(CurTok.Type == TOK_ARG);
-            Stringify((struct Argument*)CurTok.Text);
-            return;
-        case TOK_ARG:
-            PushHandleArg((struct Argument*)CurTok.Text);
-            continue;
-        default:
+        if (CurTok.Type != TOK_RAW_ID)
             return;
-        }
 
         ReplaceId();
         if (!ReplaceNest && CurTok.Type >= TOK_ID)
@@ -973,16 +1102,13 @@ void GetToken(void)
         const int Id = CurTok.Type;
         struct Argument* A;
         struct Macro* M = &Macros[Id - TOK_USER_ID];
-        if (M->Hide)
+        if (M->Hide) {
+            if (M->Hide == 2)
+                CurTok.Type = TOK_RAW_ID; // Not a macro
             return;
+        }
         if (Debug) printf("Start expanding macro %s\n", IdText[Id-TOK_ID]);
-        struct TokenList* Saved = 0;
         if (M->Arguments) {
-            // Used inside its own argument?
-            const int Nest0 = ReplaceNest;
-            int Outer = 0;
-            while (Outer < Nest0 && ReplaceStack[Outer].M != M)
-                ++Outer;
             struct Token WSToken;
             WSToken.Type = 0;
             for (;;) {
@@ -991,7 +1117,7 @@ void GetToken(void)
                     break;
                 WSToken = CurTok;
             }
-            if (CurTok.Type != '(' || (Outer < Nest0 && ReplaceNest < Nest0)) {
+            if (CurTok.Type != '(') {
                 // Undo consumption of ID and any whitespace
                 if (ReplaceNest) {
                     // To be returned before the rest of the replacement list
@@ -1007,29 +1133,26 @@ void GetToken(void)
                     }
                     TokenQueuePush(&CurTok);
                 }
-                CurTok.Type = Id;
+                CurTok.Type = TOK_RAW_ID;
                 CurTok.Text = IdText[Id - TOK_ID];
                 return;
             }
-            if (Outer < Nest0) {
-                struct TokenList** Last = &Saved;
-                for (A = M->Arguments; A; A = A->Next) {
-                    struct Token T;
-                    T.Type = TOK_ARG;
-                    T.Text = (char*)A->Replacement;
-                    Last = AddToken(Last, &T);
-                    A->Replacement = 0;
-                }
-            }
             RawGetToken();
-            RawSkipWS();
-            if (CurTok.Type != ')') {
-                assert(M->Arguments != (struct Argument*)1);
+            while (CurTok.Type == TOK_WHITESPACE || CurTok.Type == TOK_NEWLINE)
+                RawGetToken();
+            if (M->Arguments == (struct Argument*)1) {
+                assert(CurTok.Type == ')');
+            } else {
+                struct TokenList* Args[MAX_ARGS];
+                int NumArgs = 0;
+                int i;
                 A = M->Arguments;
                 while (A) {
-                    struct TokenList** ArgL = &A->Replacement;
+                    assert(NumArgs < MAX_ARGS);
+                    struct TokenList** ArgL = &Args[NumArgs++];
                     int Nest = 0;
                     int PendWS = -1;
+                    int LastClass = 0;
                     for (;; RawGetToken()) {
                         if (CurTok.Type == TOK_WHITESPACE || CurTok.Type == TOK_NEWLINE) {
                             if (PendWS == 0) PendWS = 1;
@@ -1041,15 +1164,9 @@ void GetToken(void)
                             break;
                         else if (!CurTok.Type || (!Nest && CurTok.Type == ','))
                             break;
-                        if (PendWS == 1) {
-                            struct Token WSTok;
-                            WSTok.Type = TOK_WHITESPACE;
-                            ArgL = AddToken(ArgL, &WSTok);
-                        }
+                        ArgL = AddArgToken(ArgL, PendWS, LastClass);
+                        LastClass = EndClass();
                         PendWS = 0;
-                        ArgL = AddToken(ArgL, &CurTok);
-                        assert(TokenDataPos >= NextTokenDataPos);
-                        NextTokenDataPos = TokenDataPos; // Preserve the token data
                     }
                     *ArgL = 0;
                     A = A->Next;
@@ -1058,96 +1175,34 @@ void GetToken(void)
                     RawGetToken();
                 }
                 assert(!A && CurTok.Type == ')');
+                // Note: The macro might be used again while its arguments are expanded
+                struct TokenList* Expanded[MAX_ARGS];
+                i = 0;
+                for (A = M->Arguments; A; A = A->Next) {
+                    Expanded[i] = Args[i];
+                    if (IsReplaced(M->Replacement, A))
+                        ExpandArg(&Expanded[i], Args[i]);
+                    ++i;
+                }
+                i = 0;
+                for (A = M->Arguments; A; A = A->Next) {
+                    A->Raw = Args[i];
+                    A->Replacement = Expanded[i++];
+                }
             }
         }
         if (Debug) printf("Start expanding macro body of %s\n", IdText[Id-TOK_ID]);
         if (M->Replacement) {
             struct ReplaceStackElem* RS = PushReplacement(M->Replacement);
             RS->M = M;
-            RS->Saved = Saved;
             M->Hide = 1;
         } else {
-            FreeArgs(M->Arguments, Saved);
+            FreeArgs(M->Arguments);
             Boundary = 1;
         }
     }
 }
 
-int AddQuote(char* D, int Type)
-{
-    if (Type == TOK_CHARLIT) {
-        *D = '\'';
-        return 1;
-    } else if (Type == TOK_STRLIT) {
-        *D++ = '\\';
-        *D = '"';
-        return 2;
-    }
-    return 0;
-}
-
-void Stringify(struct Argument* A)
-{
-    char StrBuf[256];
-    struct TokenList* TL = A->Replacement;
-    struct Macro* M = &Macros[A->MacroIndex];
-    const char Hide = M->Hide;
-    M->Hide = 0; // Not hidden in its own argument
-    int StrPos = 0;
-    int PendWS = 0;
-    int FromS = 0;
-    while (TL || FromS) {
-        if (!FromS) {
-            CurTok = TL->Tok;
-            TL = TL->Next;
-        } else {
-            GetToken();
-            if (CurTok.Type == TOK_EOF) {
-                --FromS;
-                if (Debug) printf("Hit stop: FromS=%d\n", FromS);
-                continue;
-            }
-        }
-        if (CurTok.Type == TOK_ARG) {
-            ++FromS;
-            if (Debug) printf("Switching to arg list FromS=%d\n", FromS);
-            PushHandleArg((struct Argument*)CurTok.Text)->Stop = 1;
-            continue;
-        }
-
-        if (Debug) { printf("Stringifying: "); PrintToken(&CurTok); printf("\n"); }
-        if (CurTok.Type == TOK_WHITESPACE || CurTok.Type == TOK_NEWLINE) {
-            PendWS = 1;
-        } else {
-            if (PendWS) {
-                assert(StrPos < (int)sizeof(StrBuf));
-                StrBuf[StrPos++] = ' ';
-                PendWS = 0;
-            }
-            const int Lit = CurTok.Type == TOK_STRLIT || CurTok.Type == TOK_CHARLIT;
-            const char* T = CurTok.Text;
-            assert(StrPos < (int)sizeof(StrBuf)-4);
-            StrPos += AddQuote(&StrBuf[StrPos], CurTok.Type);
-            while (*T) {
-                assert(StrPos < (int)sizeof(StrBuf)-4);
-                if (Lit && (*T == '"' || *T == '\\'))
-                    StrBuf[StrPos++] = '\\';
-                StrBuf[StrPos++] = *T++;
-            }
-            StrPos += AddQuote(&StrBuf[StrPos], CurTok.Type);
-        }
-    }
-    M->Hide = Hide;
-    StrBuf[StrPos++] = 0;
-
-    // Preserve the string
-    assert(NextTokenDataPos <= TOKEN_DATA_MAX-StrPos);
-    CurTok.Type = TOK_STRLIT;
-    CurTok.Text = &TokenData[NextTokenDataPos];
-    memcpy(&TokenData[NextTokenDataPos], StrBuf, StrPos);
-    TokenDataPos = NextTokenDataPos += StrPos;
-}
-
 void HandleDefine(void)
 {
     RawGetToken();
@@ -1189,7 +1244,6 @@ void HandleDefine(void)
             }
             assert(ArgumentCount < ARGUMENT_MAX);
             Argument[ArgumentCount].Id = CurTok.Type;
-            Argument[ArgumentCount].MacroIndex = (int)(M - Macros);
             *LastArg = &Argument[ArgumentCount];
             LastArg = &Argument[ArgumentCount].Next;
             ++ArgumentCount;
@@ -1228,6 +1282,8 @@ void HandleDefine(void)
             }
             CurTok.Type = TOK_RAW_ID;
         }
+        if (M->Arguments && CurTok.Type == '#')
+            CurTok.Type = TOK_STRINGIFY;
 Add:
         if (PendWS == 1) {
             struct Token WS;
@@ -1591,19 +1647,6 @@ void OutputStr(const char* Str)
     OutFile->BufPtr = Buf;
 }
 
-// Tokens ending/starting with characters of the same (non-zero) class could be read as one
-int CharClass(int Ch)
-{
-    if ((IsIdChar[(unsigned char)Ch>>3]>>(Ch&7)) & 1)
-        return 1;
-    switch (Ch) {
-    case '!': case '#': case '%': case '&': case '*': case '+': case '-':
-    case '.': case '/': case '<': case '=': case '>': case '^': case '|':
-        return 2;
-    }
-    return 0;
-}
-
 void PPMain(void)
 {
     ReadChar();
@@ -1617,7 +1660,7 @@ void PPMain(void)
     for (;;) {
         switch (CurTok.Type) {
         case '#':
-            if (!StartOfLine)
+            if (!StartOfLine || ReplaceNest)
                 break;
             RawGetToken();
             HandleDirective();
@@ -1676,11 +1719,10 @@ void PPMain(void)
             printf("Unterminated literal in %s:%d\n", CurFile->Filename, Line);
             exit(1);
         }
-        const int Lit = CurTok.Type == TOK_STRLIT || CurTok.Type == TOK_CHARLIT;
-        if (Boundary && !Lit && LastClass && LastClass == CharClass(*CurTok.Text))
+        if (MayJoin(LastClass))
             WS |= WS_NORMAL;
         Boundary = 0;
-        LastClass = 0;
+        LastClass = EndClass();
         if (WS) {
             if (WS & WS_NEWLINE) {
                 OutputStr("\r\n");
@@ -1689,14 +1731,13 @@ void PPMain(void)
             }
             WS = 0;
         }
-        if (Lit) {
+        if (IsLiteral()) {
             const char* S = CurTok.Type == TOK_STRLIT ? "\"" : "'";
             OutputStr(S);
             OutputStr(CurTok.Text);
             OutputStr(S);
         } else {
             OutputStr(CurTok.Text);
-            LastClass = CharClass(CurTok.Text[strlen(CurTok.Text)-1]);
         }
         GetToken();
     }
-- 
2.43.0


From 0a27e4ccd3c403cf471b553c55ff75440ee03847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:39 +0000
Subject: [PATCH 092/145] fix: scpp: directives without a name in skipped
 groups

---
 scpp.c | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/scpp.c b/scpp.c
index 628cccd..5683f68 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1551,13 +1551,13 @@ void HandleDirective(void)
     if (CurTok.Type == TOK_NEWLINE) {
         return;
     }
-    ReplaceId();
+    if (CurTok.Type == TOK_RAW_ID)
+        ReplaceId();
     NextTokenDataPos = PermTokenDataPos;
     const int Directive = CurTok.Type;
-    assert(Directive < TOK_USER_ID);
     InDirective = 1;
 
-    if (Debug) printf("Processing directive %s (CondActive=%d)\n", IdText[Directive-TOK_ID], CondActive());
+    if (Debug) printf("Processing directive %s (CondActive=%d)\n", CurTok.Text, CondActive());
 
     if (Directive == TOK_DEFINE) {
         if (CondActive()) HandleDefine();
@@ -1583,9 +1583,8 @@ void HandleDirective(void)
     } else if (Directive == TOK_IFDEF || Directive == TOK_IFNDEF) {
         RawGetToken();
         RawSkipWS();
-        ReplaceId();
+        if (CondActive()) ReplaceId();
         NewCond((int)(Directive == TOK_IFNDEF) ^ IsDefined(CurTok.Type));
-        RawGetToken();
     } else if (Directive == TOK_ERROR) {
         if (CondActive()) {
             printf("#error in %s:%d!\n", CurFile->Filename, Line);
@@ -1593,18 +1592,16 @@ void HandleDirective(void)
         }
     } else if (Directive == TOK_PRAGMA || Directive == TOK_LINE) {
         // Ignore
-    } else if (Directive == TOK_RAW_ID) {
+    } else if (Directive < TOK_ID || Directive > TOK_PRAGMA) {
         if (CondActive()) {
-            printf("Invalid directive '%s'\n", CurTok.Text);
-            assert(0);
+            printf("Invalid directive '%s' in %s:%d\n", CurTok.Text, CurFile->Filename, Line);
+            exit(1);
         }
     } else {
         char* S = CondCount ? &CondState[CondCount-1] : 0;
         const int Eval = (Directive == TOK_IF && CondActive()) || (Directive == TOK_ELIF && S && *S == COND_FALSE);
         if (Eval)
             GetToken();
-        else
-            RawGetToken(); // Don't expand macros in expressions that aren't evaluated
 
         if (Directive == TOK_IF) {
             NewCond(Eval && EvalExpr());
@@ -1620,12 +1617,9 @@ void HandleDirective(void)
                 *S = COND_DONE;
             else if (*S == COND_FALSE)
                 *S = COND_TRUE;
-        } else if (Directive == TOK_ENDIF) {
+        } else {
             assert(CondCount);
             --CondCount;
-        } else {
-            assert(Directive >= TOK_ID && Directive < TOK_ID+ID_MAX);
-            printf("TODO: Handle directive '%s'\n", IdText[Directive-TOK_ID]);
         }
     }
     while (CurTok.Type != TOK_NEWLINE) {
-- 
2.43.0


From ca9677b62bd626103801eb8eba83d884d3338570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 093/145] fix: scpp: macros and parameters named like a
 directive

---
 scpp.c | 67 +++++++++++++++++++++++++++++-----------------------------
 1 file changed, 33 insertions(+), 34 deletions(-)

diff --git a/scpp.c b/scpp.c
index 5683f68..0e1b749 100644
--- a/scpp.c
+++ b/scpp.c
@@ -415,8 +415,7 @@ struct Macro {
     struct TokenList* Replacement;
     char Hide; // 0=Not hidden, 1=Hidden while being expanded, 2=Undefined
 };
-enum { MACRO_MAX = ID_MAX-(TOK_USER_ID-TOK_ID) };
-struct Macro Macros[MACRO_MAX];
+struct Macro Macros[ID_MAX];
 
 struct ReplaceStackElem {
     struct Macro* M;
@@ -1079,29 +1078,29 @@ void GetToken(void)
         ReplaceId();
         if (!ReplaceNest && CurTok.Type >= TOK_ID)
             NextTokenDataPos = PermTokenDataPos; // Not needed anymore
-        if (CurTok.Type < TOK_USER_ID) {
-            if (CurTok.Type > TOK_DEFINED) {
-                if (Debug) printf("Special token! %s\n", CurTok.Text);
-                if (CurTok.Type == TOK___LINE__) {
-                    assert(NextTokenDataPos <= TOKEN_DATA_MAX-12);
-                    char* T = &TokenData[NextTokenDataPos];
-                    sprintf(T, "%d", Line);
-                    TokenDataPos = NextTokenDataPos += (int)strlen(T) + 1;
-                    CurTok.Text = T;
-                    CurTok.Type = TOK_NUM;
-                } else if (CurTok.Type == TOK___FILE__) {
-                    CurTok.Text = CurFile->Filename;
-                    CurTok.Type = TOK_STRLIT;
-                } else {
-                    CurTok.Text = "1";
-                    CurTok.Type = TOK_NUM;
-                }
+        const int Id = CurTok.Type;
+        if (Id < TOK_ID)
+            return;
+        if (Id >= TOK_DEFINED && Id < TOK_USER_ID) {
+            if (Debug) printf("Special token! %s\n", CurTok.Text);
+            if (Id == TOK___LINE__) {
+                assert(NextTokenDataPos <= TOKEN_DATA_MAX-12);
+                char* T = &TokenData[NextTokenDataPos];
+                sprintf(T, "%d", Line);
+                TokenDataPos = NextTokenDataPos += (int)strlen(T) + 1;
+                CurTok.Text = T;
+                CurTok.Type = TOK_NUM;
+            } else if (Id == TOK___FILE__) {
+                CurTok.Text = CurFile->Filename;
+                CurTok.Type = TOK_STRLIT;
+            } else if (Id == TOK___SCC__) {
+                CurTok.Text = "1";
+                CurTok.Type = TOK_NUM;
             }
             return;
         }
-        const int Id = CurTok.Type;
         struct Argument* A;
-        struct Macro* M = &Macros[Id - TOK_USER_ID];
+        struct Macro* M = &Macros[Id - TOK_ID];
         if (M->Hide) {
             if (M->Hide == 2)
                 CurTok.Type = TOK_RAW_ID; // Not a macro
@@ -1211,8 +1210,8 @@ void HandleDefine(void)
     ReplaceId();
     int Id = CurTok.Type;
     struct Macro* M;
-    if (Id >= TOK_USER_ID) {
-        M = &Macros[Id-TOK_USER_ID];
+    if (Id >= TOK_ID) {
+        M = &Macros[Id-TOK_ID];
         if (!M->Hide) {
             // Macro redifition (must match previous definition)
             return;
@@ -1222,8 +1221,7 @@ void HandleDefine(void)
     } else {
         Id = AddId(CurTok.Text) + TOK_ID;
         NextTokenDataPos = TokenDataPos;
-        assert(Id - TOK_USER_ID < MACRO_MAX);
-        M = &Macros[Id-TOK_USER_ID];
+        M = &Macros[Id-TOK_ID];
     }
     if (Debug) printf("Defining macro %s\n", IdText[Id-TOK_ID]);
     RawGetToken();
@@ -1239,8 +1237,7 @@ void HandleDefine(void)
             if (CurTok.Type == TOK_RAW_ID) {
                 CurTok.Type = AddId(CurTok.Text) + TOK_ID;
                 NextTokenDataPos = TokenDataPos;
-                assert(CurTok.Type - TOK_USER_ID < MACRO_MAX);
-                Macros[CurTok.Type-TOK_USER_ID].Hide = 2; // Prented the Id refers to an undefined macro
+                Macros[CurTok.Type-TOK_ID].Hide = 2; // Prented the Id refers to an undefined macro
             }
             assert(ArgumentCount < ARGUMENT_MAX);
             Argument[ArgumentCount].Id = CurTok.Type;
@@ -1269,7 +1266,7 @@ void HandleDefine(void)
         }
         if (M->Arguments && M->Arguments != (struct Argument*)1 && CurTok.Type == TOK_RAW_ID) {
             ReplaceId();
-            if (CurTok.Type >= TOK_USER_ID) {
+            if (CurTok.Type >= TOK_ID) {
                 struct Argument* A = M->Arguments;
                 while (A) {
                     if (A->Id == CurTok.Type) {
@@ -1324,7 +1321,7 @@ void Expect(int T)
 
 int IsDefined(int Tok)
 {
-    return (Tok > TOK_DEFINED && Tok < TOK_USER_ID) || (Tok >= TOK_USER_ID && !Macros[Tok - TOK_USER_ID].Hide);
+    return (Tok > TOK_DEFINED && Tok < TOK_USER_ID) || (Tok >= TOK_ID && !Macros[Tok - TOK_ID].Hide);
 }
 
 int EvalExpr(void);
@@ -1386,8 +1383,8 @@ int EvalUnary(void)
         return n;
     }
 
-    if (CurTok.Type >= TOK_USER_ID) {
-        // Undefined or not expanded macro - evaluate as zero
+    if (CurTok.Type >= TOK_ID) {
+        // Not expanded macro - evaluate as zero
         GetToken();
         return 0;
     }
@@ -1557,7 +1554,7 @@ void HandleDirective(void)
     const int Directive = CurTok.Type;
     InDirective = 1;
 
-    if (Debug) printf("Processing directive %s (CondActive=%d)\n", CurTok.Text, CondActive());
+    if (Debug) printf("Processing directive '%s' (CondActive=%d)\n", CurTok.Text, CondActive());
 
     if (Directive == TOK_DEFINE) {
         if (CondActive()) HandleDefine();
@@ -1570,9 +1567,9 @@ void HandleDirective(void)
             RawGetToken();
             RawSkipWS();
             ReplaceId();
-            if (CurTok.Type >= TOK_USER_ID) {
+            if (CurTok.Type >= TOK_ID) {
                 // HACK: Just hide #undef'ed macros
-                struct Macro* M = &Macros[CurTok.Type - TOK_USER_ID];
+                struct Macro* M = &Macros[CurTok.Type - TOK_ID];
                 M->Hide = 2;
                 FreeTokenList(M->Replacement);
                 M->Replacement = 0;
@@ -1790,6 +1787,8 @@ int main(int argc, char** argv)
     assert(TOK_ID+IdCount == TOK_USER_ID);
 
     int i;
+    for (i = 0; i <= TOK_PRAGMA-TOK_ID; ++i)
+        Macros[i].Hide = 2; // Not macros unless defined
     for (i = 0; i < TOKEN_LIST_MAX-1; ++i) {
         TokenListElems[i].Next = &TokenListElems[i+1];
     }
-- 
2.43.0


From b017f62869d7c1b62def4ef305bf1df406eca905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:54 +0000
Subject: [PATCH 094/145] fix: scpp: line numbers in an included file after an
 empty line

---
 scpp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scpp.c b/scpp.c
index 0e1b749..754a030 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1539,6 +1539,7 @@ void HandleInclude(void)
     CurFile->OldLine = Line;
     CurFileBuf = CurFile->Buf;
     Line = 1;
+    CurrentChar = 0; // Don't count the line it might end
     ReadChar();
 }
 
-- 
2.43.0


From 9b9982f899e48e4576211241738296c86633ee84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:41 +0000
Subject: [PATCH 095/145] fix: scpp: #define on the last line of an included
 file

---
 scpp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scpp.c b/scpp.c
index 754a030..2e30cb1 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1259,7 +1259,7 @@ void HandleDefine(void)
     RawSkipWS();
     struct TokenList** Last = &M->Replacement;
     int PendWS = -1;
-    for (; CurTok.Type != TOK_NEWLINE; RawGetToken()) {
+    for (; CurTok.Type && CurTok.Type != TOK_NEWLINE; RawGetToken()) {
         if (CurTok.Type == TOK_WHITESPACE) {
             if (PendWS == 0) PendWS = 1;
             continue;
-- 
2.43.0


From 4f19c15c9ccf98dbd18c1b18a1ae53ea79ae37a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:01 +0000
Subject: [PATCH 096/145] fix: scpp: crash for a token list with # followed by
 ##

---
 scpp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scpp.c b/scpp.c
index 2e30cb1..33fda37 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1012,6 +1012,7 @@ int MayJoin(int LastClass)
 struct TokenList** AddArgToken(struct TokenList** L, int PendWS, int LastClass)
 {
     struct Token WSTok;
+    WSTok.Text = "";
     if (PendWS == 1) {
         WSTok.Type = TOK_WHITESPACE;
         L = AddToken(L, &WSTok);
@@ -1110,6 +1111,7 @@ void GetToken(void)
         if (M->Arguments) {
             struct Token WSToken;
             WSToken.Type = 0;
+            WSToken.Text = "";
             for (;;) {
                 RawGetToken();
                 if (CurTok.Type != TOK_WHITESPACE && (CurTok.Type != TOK_NEWLINE || InDirective))
@@ -1285,6 +1287,7 @@ Add:
         if (PendWS == 1) {
             struct Token WS;
             WS.Type = TOK_WHITESPACE;
+            WS.Text = "";
             Last = AddToken(Last, &WS);
         }
         PendWS = 0;
-- 
2.43.0


From 113d063c02710f01e0e4752fe85b34fd92852633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:33 +0000
Subject: [PATCH 097/145] fix: scpp: space of pasted tokens is used again

---
 scpp.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/scpp.c b/scpp.c
index 33fda37..7a62aad 100644
--- a/scpp.c
+++ b/scpp.c
@@ -562,12 +562,12 @@ void PasteToken(struct Token* Dest, struct Token* Tok)
     if (Debug) { printf("Paste "); PrintToken(Tok); printf(" to "); PrintToken(Dest); printf("\n"); }
     const int l1 = (int)strlen(Dest->Text);
     const int l2 = (int)strlen(Tok->Text) + 1;
-    assert(TokenDataPos+l1+l2 < TOKEN_DATA_MAX);
-    memcpy(&TokenData[TokenDataPos], Dest->Text, l1);
-    memcpy(&TokenData[TokenDataPos+l1], Tok->Text, l2);
-    Dest->Text = &TokenData[TokenDataPos];
-    TokenDataPos+=l1+l2;
-    NextTokenDataPos = TokenDataPos;
+    char* T = &TokenData[NextTokenDataPos];
+    assert(NextTokenDataPos < TOKEN_DATA_MAX-(l1+l2));
+    memcpy(T, Dest->Text, l1);
+    memcpy(T+l1, Tok->Text, l2);
+    Dest->Text = T;
+    TokenDataPos = NextTokenDataPos += l1+l2;
     if (Dest->Type >= TOK_RAW_ID)
         Dest->Type = TOK_RAW_ID;
     else if (Dest->Type > ' ')
-- 
2.43.0


From 4a02e2d8d64d7f8d41da35a0a257542522720cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:42 +0000
Subject: [PATCH 098/145] fix: sas: expressions wrap to 16 bits on the host as
 well

---
 sas.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sas.c b/sas.c
index 8f5b8d4..a2e8e75 100644
--- a/sas.c
+++ b/sas.c
@@ -813,6 +813,7 @@ int ParseExpr(int LHS, int OuterPrecedence)
         default:
             Fatal("TODO operator %c\n", Op);
         }
+        LHS = (short)LHS; // Also on hosts with larger ints
     }
     return LHS;
 }
-- 
2.43.0


From f1432d8b4d0b8aef51957cd9f5a3b98bd1ecbfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:44 +0000
Subject: [PATCH 099/145] fix: sas: a number or label that does not fit in a
 byte is not truncated silently

---
 sas.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sas.c b/sas.c
index a2e8e75..cc112b0 100644
--- a/sas.c
+++ b/sas.c
@@ -475,6 +475,13 @@ void OutputByte(int b)
     ++VirtAddress;
 }
 
+void OutputByteValue(int b)
+{
+    if (b < -128 || b > 255)
+        Fatal("Value %d does not fit in a byte", b);
+    OutputByte(b);
+}
+
 void OutputWord(int w)
 {
     OutputByte(w);
@@ -1009,7 +1016,7 @@ void HandleDx(int size)
     do {
         if (TokenType == TOK_NUMBER) {
             if (size == 1)
-                OutputByte(TokenVal.Num);
+                OutputByteValue(TokenVal.Num);
             else
                 OutputWord(TokenVal.Num);
             GetToken();
@@ -1074,7 +1081,7 @@ void HandleDirective(int Dir)
 void OutputImm8(struct Operand* Op)
 {
     assert(!Op->Fixup);
-    OutputByte(Op->Disp);
+    OutputByteValue((short)Op->Disp);
 }
 
 void OutputImm16(struct Operand* Op)
-- 
2.43.0


From 8df09ee1b5d2bf3b4fb60e99682e26d85f3f4e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:33 +0000
Subject: [PATCH 100/145] fix: sim86: registers are 16 bits wide on the host as
 well

---
 sim86.c | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/sim86.c b/sim86.c
index 0589925..0ed5780 100644
--- a/sim86.c
+++ b/sim86.c
@@ -43,9 +43,15 @@ enum {
     LOAD_OFFSET     = 0x100,
 };
 
-int reg[8];
-int sreg[4];
-int ip;
+#ifdef __SCC__
+typedef unsigned Word;
+#else
+typedef unsigned short Word;
+#endif
+
+Word reg[8];
+Word sreg[4];
+Word ip;
 int flags;
 #ifndef __SCC__
 char mem[1024*1024];
@@ -167,6 +173,11 @@ void PrintState(void)
     dsize = old;
 }
 
+int Signed(int v)
+{
+    return (v ^ 0x8000) - 0x8000;
+}
+
 int Read8(int sr, int off)
 {
 #ifdef PROFILING
@@ -1052,8 +1063,9 @@ int main(int argc, char** argv)
             case 0xD1:
                 {
                     ModRM();
-                    const unsigned v = ReadRM();
-                    unsigned res, c;
+                    const Word v = ReadRM();
+                    Word res;
+                    unsigned c;
                     switch (modrm>>3&7) {
                     case 4: // SHL R/M16, 1
                         if (verbose) sprintf(insttext, "SHL %s, 1", rmtext);
@@ -1067,7 +1079,7 @@ int main(int argc, char** argv)
                         break;
                     case 7: // SAR R/M16, 1
                         if (verbose) sprintf(insttext, "SAR %s, 1", rmtext);
-                        res = (int)v>>1;
+                        res = Signed(v) >> 1;
                         c = v&1;
                         break;
                     default:
@@ -1082,9 +1094,10 @@ int main(int argc, char** argv)
             case 0xD3:
                 {
                     ModRM();
-                    const unsigned v = ReadRM();
+                    const Word v = ReadRM();
                     const unsigned a = reg[R_CX]&15;
-                    unsigned res, c=0;
+                    Word res;
+                    unsigned c=0;
                     switch (modrm>>3&7) {
                     case 4: // SHL R/M16, CL
                         if (verbose) sprintf(insttext, "SHL %s, CL", rmtext);
@@ -1098,7 +1111,7 @@ int main(int argc, char** argv)
                         break;
                     case 7: // SAR R/M16, CL
                         if (verbose) sprintf(insttext, "SAR %s, CL", rmtext);
-                        res = (int)v >> a;
+                        res = Signed(v) >> a;
                         if (a) c = (v >> (a-1)) & 1;
                         break;
                     default:
@@ -1162,10 +1175,11 @@ int main(int argc, char** argv)
                     case 7: // IDIV (TODO: Full 32-bit divide)
                         {
                             if (verbose) sprintf(insttext, "IDIV %s", rmtext);
-                            const int d = ReadRM();
-                            assert(reg[R_DX] == (reg[R_AX] & 0x8000 ? -1 : 0));
-                            reg[R_DX] = reg[R_AX] % d;
-                            reg[R_AX] /= d;
+                            const int d = Signed(ReadRM());
+                            const int n = Signed(reg[R_AX]);
+                            assert(reg[R_DX] == (n < 0 ? 0xffff : 0));
+                            reg[R_DX] = n % d;
+                            reg[R_AX] = n / d;
                         }
                         break;
                     default:
-- 
2.43.0


From ae25f9799ba72d40d56410a9c385aecac34f8929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:11 +0000
Subject: [PATCH 101/145] fix: sim86: zero flag of byte operations that carry

---
 sim86.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim86.c b/sim86.c
index 0ed5780..bc7329f 100644
--- a/sim86.c
+++ b/sim86.c
@@ -385,7 +385,7 @@ void DoOp(int op, unsigned l, unsigned r)
     flags = 0;
     if (res & mask)
         flags |= FS;
-    if (!TRIM(res))
+    if (!(res & (mask | (mask - 1))))
         flags |= FZ;
     if (carry & mask)
         flags |= FC;
-- 
2.43.0


From 516abf54e977af4181ad0b083ebf9c8b400e956c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:11 +0000
Subject: [PATCH 102/145] fix: sim86: -v and -p: text of an operand with
 segment and large displacement does not fit

---
 sim86.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim86.c b/sim86.c
index bc7329f..6ea2d68 100644
--- a/sim86.c
+++ b/sim86.c
@@ -66,7 +66,7 @@ char dsize;
 signed char seg;
 
 int verbose;
-char rmtext[16];
+char rmtext[20];
 char insttext[64];
 const char* filename;
 
-- 
2.43.0


From d3e2ad07fdc83bbfe070bd717328128a911b3527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:11 +0000
Subject: [PATCH 103/145] fix: sim86: INC, DEC and NEG set the flags

---
 sim86.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/sim86.c b/sim86.c
index 6ea2d68..5ad264f 100644
--- a/sim86.c
+++ b/sim86.c
@@ -528,23 +528,23 @@ void JCC(int cc)
         ip += rel;
 }
 
-// TODO: INC/DEC shouldn't modify carry(?)
-void DoIncDec(int v)
+void DoIncDec(int op)
 {
-    const int s = ReadRM();
-    WriteRM(s+v);
+    const int c = flags & FC; // Not modified
+    DoOp(op, ReadRM(), 1);
+    flags = (flags & ~FC) | c;
 }
 
 void INC(void)
 {
     if (verbose) sprintf(insttext, "INC %s", rmtext);
-    DoIncDec(1);
+    DoIncDec(OP_ADD);
 }
 
 void DEC(void)
 {
     if (verbose) sprintf(insttext, "DEC %s", rmtext);
-    DoIncDec(-1);
+    DoIncDec(OP_SUB);
 }
 
 void ReadAsciiz(char* dest, int sr, int off)
@@ -1152,7 +1152,7 @@ int main(int argc, char** argv)
                         break;
                     case 3: // NEG r/m16
                         if (verbose) sprintf(insttext, "NEG %s", rmtext);
-                        WriteRM(-ReadRM());
+                        DoOp(OP_SUB, 0, ReadRM());
                         break;
                     case 4: // MUL (TODO: Full 32-bit result)
                     case 5: // IMUL (TODO: Full 32-bit result)
-- 
2.43.0


From 19c325dad8f6f16a0cb6a630a0ddf60d87089fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:11 +0000
Subject: [PATCH 104/145] fix: sim86: shift counts above 15, and flags after
 shifts

---
 sim86.c | 97 ++++++++++++++++++++++-----------------------------------
 1 file changed, 38 insertions(+), 59 deletions(-)

diff --git a/sim86.c b/sim86.c
index 5ad264f..e558551 100644
--- a/sim86.c
+++ b/sim86.c
@@ -425,6 +425,40 @@ void MOV(int swap)
     }
 }
 
+void Shift(unsigned count, const char* ctext)
+{
+    const int op = modrm>>3&7;
+    const char* n;
+    switch (op) {
+    case 4: n = "SHL"; break;
+    case 5: n = "SHR"; break;
+    case 7: n = "SAR"; break;
+    default:
+        Fatal("TODO: %s/%d", *ctext == '1' ? "D1" : "D3", op);
+    }
+    if (verbose) sprintf(insttext, "%s %s, %s", n, rmtext, ctext);
+    if (!count)
+        return; // Flags aren't modified
+    const Word old = ReadRM();
+    Word v = old;
+    Word c;
+    do {
+        c = v & (op == 4 ? 0x8000 : 1);
+        if (op == 4) {
+            v <<= 1;
+        } else {
+            v >>= 1;
+            if (op == 7) v |= old & 0x8000;
+        }
+    } while (--count);
+    WriteRM(v);
+    flags = 0;
+    if (c) flags |= FC;
+    if (!v) flags |= FZ;
+    if (v & 0x8000) flags |= FS;
+    if ((v ^ old) & 0x8000) flags |= FO; // Only defined for count = 1
+}
+
 int ReadToMem(int fd, int off, int size)
 {
 #ifdef __SCC__
@@ -1061,67 +1095,12 @@ int main(int argc, char** argv)
                 INT();
                 break;
             case 0xD1:
-                {
-                    ModRM();
-                    const Word v = ReadRM();
-                    Word res;
-                    unsigned c;
-                    switch (modrm>>3&7) {
-                    case 4: // SHL R/M16, 1
-                        if (verbose) sprintf(insttext, "SHL %s, 1", rmtext);
-                        res = v << 1;
-                        c = v & 0x8000;
-                        break;
-                    case 5: // SHR R/M16, 1
-                        if (verbose) sprintf(insttext, "SHR %s, 1", rmtext);
-                        res = v>>1;
-                        c = v&1;
-                        break;
-                    case 7: // SAR R/M16, 1
-                        if (verbose) sprintf(insttext, "SAR %s, 1", rmtext);
-                        res = Signed(v) >> 1;
-                        c = v&1;
-                        break;
-                    default:
-                        Fatal("TODO: D1/%d", modrm>>3&7);
-                    }
-                    WriteRM(res);
-                    flags = 0;
-                    if (c) flags |= FC;
-                    if (!res) flags |= FZ;
-                }
+                ModRM();
+                Shift(1, "1");
                 break;
             case 0xD3:
-                {
-                    ModRM();
-                    const Word v = ReadRM();
-                    const unsigned a = reg[R_CX]&15;
-                    Word res;
-                    unsigned c=0;
-                    switch (modrm>>3&7) {
-                    case 4: // SHL R/M16, CL
-                        if (verbose) sprintf(insttext, "SHL %s, CL", rmtext);
-                        res = v << a;
-                        if (a) c = (v << (a-1)) & 0x8000;
-                        break;
-                    case 5: // SHR R/M16, CL
-                        if (verbose) sprintf(insttext, "SHR %s, CL", rmtext);
-                        res = v >> a;
-                        if (a) c = (v >> (a-1)) & 1;
-                        break;
-                    case 7: // SAR R/M16, CL
-                        if (verbose) sprintf(insttext, "SAR %s, CL", rmtext);
-                        res = Signed(v) >> a;
-                        if (a) c = (v >> (a-1)) & 1;
-                        break;
-                    default:
-                        Fatal("TODO: D3/%d", modrm>>3&7);
-                    }
-                    WriteRM(res);
-                    flags = 0;
-                    if (c) flags |= FC;
-                    if (!res) flags |= FZ;
-                }
+                ModRM();
+                Shift(reg[R_CX]&0xff, "CL");
                 break;
             case 0xE8:
                 {
-- 
2.43.0


From f22ae18cdc29531a9f6930759cf55bbebccf4fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:14 +0000
Subject: [PATCH 105/145] fix: sim86: MUL and IMUL give 32 bits and set carry
 and overflow, DIV and IDIV divide 32 bits

---
 sim86.c | 105 +++++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 73 insertions(+), 32 deletions(-)

diff --git a/sim86.c b/sim86.c
index e558551..568be07 100644
--- a/sim86.c
+++ b/sim86.c
@@ -173,11 +173,6 @@ void PrintState(void)
     dsize = old;
 }
 
-int Signed(int v)
-{
-    return (v ^ 0x8000) - 0x8000;
-}
-
 int Read8(int sr, int off)
 {
 #ifdef PROFILING
@@ -459,6 +454,71 @@ void Shift(unsigned count, const char* ctext)
     if ((v ^ old) & 0x8000) flags |= FO; // Only defined for count = 1
 }
 
+void Multiply(Word b, int sign)
+{
+    const Word a = reg[R_AX];
+    Word m = a;
+    Word lo = 0;
+    Word hi = 0;
+    int i = 16;
+    do {
+        hi = hi << 1 | lo >> 15;
+        lo <<= 1;
+        if (m & 0x8000) {
+            lo += b;
+            if (lo < b) ++hi;
+        }
+        m <<= 1;
+    } while (--i);
+    if (sign) {
+        if (a & 0x8000) hi -= b;
+        if (b & 0x8000) hi -= a;
+    }
+    reg[R_AX] = lo;
+    reg[R_DX] = hi;
+    if (sign && (lo & 0x8000))
+        ++hi;
+    flags = hi ? FC | FO : 0;
+}
+
+void Divide(Word d, int sign)
+{
+    Word hi = reg[R_DX];
+    Word lo = reg[R_AX];
+    const int negrem = sign && (hi & 0x8000);
+    int neg = negrem;
+    if (negrem) {
+        lo = -lo;
+        hi = ~hi + !lo;
+    }
+    if (sign && (d & 0x8000)) {
+        d = -d;
+        neg = !neg;
+    }
+    if (hi >= d) {
+    Overflow:
+        Fatal("Divide error");
+    }
+    int i = 16;
+    do {
+        const int c = hi & 0x8000;
+        hi = hi << 1 | lo >> 15;
+        lo <<= 1;
+        if (c || hi >= d) {
+            hi -= d;
+            lo |= 1;
+        }
+    } while (--i);
+    if (neg)
+        lo = -lo;
+    if (sign && lo && !(lo & 0x8000) == neg)
+        goto Overflow;
+    if (negrem)
+        hi = -hi;
+    reg[R_AX] = lo;
+    reg[R_DX] = hi;
+}
+
 int ReadToMem(int fd, int off, int size)
 {
 #ifdef __SCC__
@@ -1123,7 +1183,6 @@ int main(int argc, char** argv)
             case 0xF7:
                 {
                     ModRM();
-                    // TODO: Flags
                     switch (modrm>>3&7) {
                     case 2: // NOT r/m16
                         if (verbose) sprintf(insttext, "NOT %s", rmtext);
@@ -1133,33 +1192,15 @@ int main(int argc, char** argv)
                         if (verbose) sprintf(insttext, "NEG %s", rmtext);
                         DoOp(OP_SUB, 0, ReadRM());
                         break;
-                    case 4: // MUL (TODO: Full 32-bit result)
-                    case 5: // IMUL (TODO: Full 32-bit result)
-                        {
-                            if (verbose) sprintf(insttext, "%sMUL %s", modrm&8?"I":"", rmtext);
-                            const unsigned int m = ReadRM();
-                            reg[R_AX] *= m;
-                            reg[R_DX] = 0;
-                        }
+                    case 4: // MUL
+                    case 5: // IMUL
+                        if (verbose) sprintf(insttext, "%sMUL %s", modrm&8?"I":"", rmtext);
+                        Multiply(ReadRM(), modrm&8);
                         break;
-                    case 6: // DIV (TODO: Full 32-bit divide)
-                        {
-                            if (verbose) sprintf(insttext, "DIV %s", rmtext);
-                            const unsigned int d = ReadRM();
-                            assert(reg[R_DX] == 0);
-                            reg[R_DX] = reg[R_AX] % d;
-                            reg[R_AX] /= d;
-                        }
-                        break;
-                    case 7: // IDIV (TODO: Full 32-bit divide)
-                        {
-                            if (verbose) sprintf(insttext, "IDIV %s", rmtext);
-                            const int d = Signed(ReadRM());
-                            const int n = Signed(reg[R_AX]);
-                            assert(reg[R_DX] == (n < 0 ? 0xffff : 0));
-                            reg[R_DX] = n % d;
-                            reg[R_AX] = n / d;
-                        }
+                    case 6: // DIV
+                    case 7: // IDIV
+                        if (verbose) sprintf(insttext, "%sDIV %s", modrm&8?"I":"", rmtext);
+                        Divide(ReadRM(), modrm&8);
                         break;
                     default:
                         Fatal("TODO: F7/%X", modrm>>3&7);
-- 
2.43.0


From d9406444d0eda2b4db4b7590515f5be94647f00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:50 +0000
Subject: [PATCH 106/145] fix: sim86: segment override for string instructions
 and MOV AL/AX

---
 sim86.c | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/sim86.c b/sim86.c
index 568be07..713aa62 100644
--- a/sim86.c
+++ b/sim86.c
@@ -1009,8 +1009,8 @@ int main(int argc, char** argv)
             case 0xA2:
             case 0xA3:
                 {
-                    int Off = ReadIByte();
-                    Off |= ReadIByte()<<8;
+                    const int Off = Imm16();
+                    if (seg == -1) seg = SR_DS;
                     if (verbose) {
                         if (inst & 2) sprintf(insttext, "MOV [0x%04X], A%c", Off, inst&1?'X':'L');
                         else          sprintf(insttext, "MOV A%c, [0x%04X]", inst&1?'X':'L', Off);
@@ -1018,15 +1018,15 @@ int main(int argc, char** argv)
                     if (inst & 2) {
                         // Store
                         if (inst & 1) {
-                            Write16(SR_DS, Off, reg[R_AX]);
+                            Write16(seg, Off, reg[R_AX]);
                         } else {
-                            Write8(SR_DS, Off, reg[R_AX] & 0xff);
+                            Write8(seg, Off, reg[R_AX] & 0xff);
                         }
                     } else {
                         if (inst & 1) {
-                            reg[R_AX] = Read16(SR_DS, Off);
+                            reg[R_AX] = Read16(seg, Off);
                         } else {
-                            reg[R_AX] = (reg[R_AX]&0xff00) | Read8(SR_DS, Off);
+                            reg[R_AX] = (reg[R_AX]&0xff00) | Read8(seg, Off);
                         }
                     }
                 }
@@ -1035,8 +1035,9 @@ int main(int argc, char** argv)
                 {
                     assert(rep == 0xF3);
                     if (verbose) sprintf(insttext, "REP MOVSB");
+                    if (seg == -1) seg = SR_DS;
                     while (reg[R_CX]) {
-                        Write8(SR_ES, reg[R_DI], Read8(SR_DS, reg[R_SI]));
+                        Write8(SR_ES, reg[R_DI], Read8(seg, reg[R_SI]));
                         reg[R_CX] -= 1;
                         reg[R_DI] += 1;
                         reg[R_SI] += 1;
@@ -1047,8 +1048,9 @@ int main(int argc, char** argv)
                 {
                     assert(rep == 0xF3);
                     if (verbose) sprintf(insttext, "REP MOVSW");
+                    if (seg == -1) seg = SR_DS;
                     while (reg[R_CX]) {
-                        Write16(SR_ES, reg[R_DI], Read16(SR_DS, reg[R_SI]));
+                        Write16(SR_ES, reg[R_DI], Read16(seg, reg[R_SI]));
                         reg[R_CX] -= 1;
                         reg[R_DI] += 2;
                         reg[R_SI] += 2;
@@ -1059,9 +1061,10 @@ int main(int argc, char** argv)
                 {
                     assert(rep == 0xF3);
                     if (verbose) sprintf(insttext, "REPE CMPSB");
+                    if (seg == -1) seg = SR_DS;
                     flags = FZ;
                     while ((flags & FZ) && reg[R_CX]) {
-                        DoOp(OP_CMP, Read8(SR_DS, reg[R_SI]), Read8(SR_ES, reg[R_DI]));
+                        DoOp(OP_CMP, Read8(seg, reg[R_SI]), Read8(SR_ES, reg[R_DI]));
                         reg[R_CX] -= 1;
                         reg[R_DI] += 1;
                         reg[R_SI] += 1;
@@ -1105,8 +1108,9 @@ int main(int argc, char** argv)
                 {
                     assert(rep == 0x00);
                     if (verbose) sprintf(insttext, "LODSB");
+                    if (seg == -1) seg = SR_DS;
                     dsize = 0;
-                    WriteReg(R_AX, Read8(SR_DS, reg[R_SI]));
+                    WriteReg(R_AX, Read8(seg, reg[R_SI]));
                     reg[R_SI] += 1;
                 }
                 break;
@@ -1114,7 +1118,8 @@ int main(int argc, char** argv)
                 {
                     assert(rep == 0x00);
                     if (verbose) sprintf(insttext, "LODSW");
-                    WriteReg(R_AX, Read16(SR_DS, reg[R_SI]));
+                    if (seg == -1) seg = SR_DS;
+                    WriteReg(R_AX, Read16(seg, reg[R_SI]));
                     reg[R_SI] += 2;
                 }
                 break;
-- 
2.43.0


From e2d6d5296f024fb02076ae3ddf5798bd91c4c785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:50 +0000
Subject: [PATCH 107/145] fix: sim86: REPE CMPSB and REPNE SCASB compare bytes,
 and keep the flags when CX is 0

---
 sim86.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sim86.c b/sim86.c
index 713aa62..a2592e5 100644
--- a/sim86.c
+++ b/sim86.c
@@ -1062,12 +1062,14 @@ int main(int argc, char** argv)
                     assert(rep == 0xF3);
                     if (verbose) sprintf(insttext, "REPE CMPSB");
                     if (seg == -1) seg = SR_DS;
-                    flags = FZ;
-                    while ((flags & FZ) && reg[R_CX]) {
+                    dsize = 0;
+                    while (reg[R_CX]) {
                         DoOp(OP_CMP, Read8(seg, reg[R_SI]), Read8(SR_ES, reg[R_DI]));
                         reg[R_CX] -= 1;
                         reg[R_DI] += 1;
                         reg[R_SI] += 1;
+                        if (!(flags & FZ))
+                            break;
                     }
                 }
                 break;
@@ -1127,11 +1129,13 @@ int main(int argc, char** argv)
                 {
                     assert(rep == 0xF2);
                     if (verbose) strcpy(insttext, "REPNE SCASB");
-                    flags = 0;
-                    while (!(flags & FZ) && reg[R_CX]) {
+                    dsize = 0;
+                    while (reg[R_CX]) {
                         DoOp(OP_CMP, (unsigned char)reg[R_AX], Read8(SR_ES, reg[R_DI]));
                         reg[R_CX] -= 1;
                         reg[R_DI] += 1;
+                        if (flags & FZ)
+                            break;
                     }
                 }
                 break;
-- 
2.43.0


From 03b0c8702b4003ea752c27c8d162be0f0601a256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:01 +0000
Subject: [PATCH 108/145] fix: sim86: CALL reads its operand before the push,
 and FE/2 is no CALL

---
 sim86.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sim86.c b/sim86.c
index a2592e5..dc15f4c 100644
--- a/sim86.c
+++ b/sim86.c
@@ -1222,6 +1222,8 @@ int main(int argc, char** argv)
             case 0xFF:
                 {
                     ModRM();
+                    if (!dsize && (modrm>>3&7) > 1)
+                        goto Unhandled;
                     switch (modrm>>3&7) {
                     case 0:
                         INC();
@@ -1231,8 +1233,11 @@ int main(int argc, char** argv)
                         break;
                     case 2:
                         if (verbose) sprintf(insttext, "CALL %s", rmtext);
-                        DoPush(ip);
-                        ip = ReadRM();
+                        {
+                            const int to = ReadRM();
+                            DoPush(ip);
+                            ip = to;
+                        }
                         break;
                     default:
                         Fatal("TODO: %02X/%X", inst, modrm>>3&7);
-- 
2.43.0


From 7a2bff382277cd1b757180b36ce66ed7db0d5167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:26 +0000
Subject: [PATCH 109/145] fix: sim86: operand size after a segment prefix

---
 sim86.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sim86.c b/sim86.c
index dc15f4c..c3ae4e3 100644
--- a/sim86.c
+++ b/sim86.c
@@ -915,6 +915,7 @@ int main(int argc, char** argv)
                         DoPush(sreg[sr]);
                 } else {
                     assert(!(inst&1));
+                    dsize = 1;
                     seg = (inst-0x26)>>3;
                     goto Restart;
                 }
-- 
2.43.0


From 54bb6cdd667f9e58aaf524af9e9cf06b7fc3e2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:26 +0000
Subject: [PATCH 110/145] fix: sim86: unsupported forms of instructions are
 reported also without assertions

---
 sim86.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/sim86.c b/sim86.c
index c3ae4e3..79e9574 100644
--- a/sim86.c
+++ b/sim86.c
@@ -119,6 +119,12 @@ NORETURN void Fatal(const char* fmt, ...)
     exit(1);
 }
 
+void Require(int ok, int inst)
+{
+    if (!ok)
+        Fatal("Unimplemented/invalid instruction %02X", inst);
+}
+
 const char Reg8Names[]  = "AL\0CL\0DL\0BL\0AH\0CH\0DH\0BH";
 const char Reg16Names[] = "AX\0CX\0DX\0BX\0SP\0BP\0SI\0DI";
 const char SRegNames[]  = "ES\0CS\0SS\0DS";
@@ -914,7 +920,7 @@ int main(int argc, char** argv)
                     else
                         DoPush(sreg[sr]);
                 } else {
-                    assert(!(inst&1));
+                    Require(!(inst&1), inst);
                     dsize = 1;
                     seg = (inst-0x26)>>3;
                     goto Restart;
@@ -980,7 +986,7 @@ int main(int argc, char** argv)
                 break;
             case 0x8C:
                 ModRM();
-                assert((modrm>>3&7) < 4);
+                Require((modrm>>3&7) < 4, inst);
                 if (verbose) sprintf(insttext, "MOV %s, %s", rmtext, SRegName(modrm>>3&7));
                 WriteRM(sreg[modrm>>3&7]);
                 break;
@@ -993,7 +999,7 @@ int main(int argc, char** argv)
                 break;
             case 0x8E:
                 ModRM();
-                assert((modrm>>3&7) < 4);
+                Require((modrm>>3&7) < 4, inst);
                 if (verbose) sprintf(insttext, "MOV %s, %s", SRegName(modrm>>3&7), rmtext);
                 sreg[modrm>>3&7] = ReadRM();
                 break;
@@ -1034,7 +1040,7 @@ int main(int argc, char** argv)
                 break;
             case 0xA4:
                 {
-                    assert(rep == 0xF3);
+                    Require(rep == 0xF3, inst);
                     if (verbose) sprintf(insttext, "REP MOVSB");
                     if (seg == -1) seg = SR_DS;
                     while (reg[R_CX]) {
@@ -1047,7 +1053,7 @@ int main(int argc, char** argv)
                 break;
             case 0xA5:
                 {
-                    assert(rep == 0xF3);
+                    Require(rep == 0xF3, inst);
                     if (verbose) sprintf(insttext, "REP MOVSW");
                     if (seg == -1) seg = SR_DS;
                     while (reg[R_CX]) {
@@ -1060,7 +1066,7 @@ int main(int argc, char** argv)
                 break;
             case 0xA6:
                 {
-                    assert(rep == 0xF3);
+                    Require(rep == 0xF3, inst);
                     if (verbose) sprintf(insttext, "REPE CMPSB");
                     if (seg == -1) seg = SR_DS;
                     dsize = 0;
@@ -1109,7 +1115,7 @@ int main(int argc, char** argv)
                 break;
             case 0xAC:
                 {
-                    assert(rep == 0x00);
+                    Require(rep == 0x00, inst);
                     if (verbose) sprintf(insttext, "LODSB");
                     if (seg == -1) seg = SR_DS;
                     dsize = 0;
@@ -1119,7 +1125,7 @@ int main(int argc, char** argv)
                 break;
             case 0xAD:
                 {
-                    assert(rep == 0x00);
+                    Require(rep == 0x00, inst);
                     if (verbose) sprintf(insttext, "LODSW");
                     if (seg == -1) seg = SR_DS;
                     WriteReg(R_AX, Read16(seg, reg[R_SI]));
@@ -1128,7 +1134,7 @@ int main(int argc, char** argv)
                 break;
             case 0xAE:
                 {
-                    assert(rep == 0xF2);
+                    Require(rep == 0xF2, inst);
                     if (verbose) strcpy(insttext, "REPNE SCASB");
                     dsize = 0;
                     while (reg[R_CX]) {
-- 
2.43.0


From ade663949060207838a211f74b7e393f2886663b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:34 +0000
Subject: [PATCH 111/145] fix: sim86: REPNE STOSB and STOSW repeat

---
 sim86.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sim86.c b/sim86.c
index 79e9574..cdff43c 100644
--- a/sim86.c
+++ b/sim86.c
@@ -1083,7 +1083,7 @@ int main(int argc, char** argv)
             case 0xAA:
                 {
                     int iter = 1;
-                    if (rep == 0xF3) {
+                    if (rep) {
                         if (verbose) sprintf(insttext, "REP STOSB");
                         iter = reg[R_CX];
                         reg[R_CX] -= iter;
@@ -1099,7 +1099,7 @@ int main(int argc, char** argv)
             case 0xAB:
                 {
                     int iter = 1;
-                    if (rep == 0xF3) {
+                    if (rep) {
                         if (verbose) sprintf(insttext, "REP STOSW");
                         iter = reg[R_CX];
                         reg[R_CX] -= iter;
-- 
2.43.0


From d64f206fd90b47b05492d74a1b819b19a92c1806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:34 +0000
Subject: [PATCH 112/145] fix: sim86: command tail

---
 sim86.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sim86.c b/sim86.c
index cdff43c..6d307cb 100644
--- a/sim86.c
+++ b/sim86.c
@@ -852,11 +852,13 @@ int main(int argc, char** argv)
     int p = 0;
     int i;
     for (i = argi + 1; argv[i]; ++i) {
-        if (i != 2) Write8(SR_DS, 0x81+(p++), ' ');
         const char* s = argv[i];
+        if (p + strlen(s) > 125)
+            Fatal("Command line too long");
+        Write8(SR_DS, 0x81+(p++), ' ');
         while (*s) Write8(SR_DS, 0x81+(p++), *s++);
     }
-    Write8(SR_DS, 0x82+p, '\r');
+    Write8(SR_DS, 0x81+p, '\r');
     Write8(SR_DS, 0x80, p);
 
     DoPush(0);
-- 
2.43.0


From 4962006f550bc173daa0e0b6720007c96c003d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:34 +0000
Subject: [PATCH 113/145] fix: sim86: reading at the end of a file and writing
 nothing are no errors

---
 sim86.c | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/sim86.c b/sim86.c
index 6d307cb..dcc6e0d 100644
--- a/sim86.c
+++ b/sim86.c
@@ -740,6 +740,16 @@ void DoExit(int ec)
     exit(ec);
 }
 
+void FileResult(int r)
+{
+    flags &= ~FC;
+    if (r == -1) {
+        flags |= FC;
+        r = 6; // Invalid handle
+    }
+    reg[R_AX] = r;
+}
+
 void INT(void)
 {
     const int intr = ReadIByte();
@@ -766,23 +776,9 @@ void INT(void)
         close(reg[R_BX]);
         flags &= ~FC;
     } else if (func == 0x3F) {
-        int r = ReadToMem(reg[R_BX], reg[R_DX], reg[R_CX]);
-        if (r <= 0) {
-            flags |= FC;
-            r = 0;
-        } else {
-            flags &= ~FC;
-        }
-        reg[R_AX] = r;
+        FileResult(ReadToMem(reg[R_BX], reg[R_DX], reg[R_CX]));
     } else if (func == 0x40) {
-        int r = WriteFromMem(reg[R_BX], reg[R_DX], reg[R_CX]);
-        if (r <= 0) {
-            flags |= FC;
-            r = 0;
-        } else {
-            flags &= ~FC;
-        }
-        reg[R_AX] = r;
+        FileResult(WriteFromMem(reg[R_BX], reg[R_DX], reg[R_CX]));
     } else if (func == 0x4C) {
         DoExit(reg[R_AX]&0xff);
     } else {
-- 
2.43.0


From 75b9004b494a8b14587bca9263a39df6450134fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:34 +0000
Subject: [PATCH 114/145] fix: lib.h: read, write and close return -1 on error
 under DOS as well

---
 lib.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib.h b/lib.h
index c243f45..9b969bb 100644
--- a/lib.h
+++ b/lib.h
@@ -98,17 +98,17 @@ int open(const char* filename, int flags, ...)
     return ax;
 }
 
-void close(int fd)
+int close(int fd)
 {
     int ax = 0x3e00;
-    DosCall(&ax, fd, 0, 0);
+    return DosCall(&ax, fd, 0, 0);
 }
 
 int read(int fd, char* buf, int count)
 {
     int ax = 0x3f00;
     if (DosCall(&ax, fd, count, buf))
-        return 0;
+        return -1;
     return ax;
 }
 
@@ -116,7 +116,7 @@ int write(int fd, const char* buf, int count)
 {
     int ax = 0x4000;
     if (DosCall(&ax, fd, count, buf))
-        return 0;
+        return -1;
     return ax;
 }
 
-- 
2.43.0


From 0f6d446887e6f1de6aa260546b846be3329dbd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:53 +0000
Subject: [PATCH 115/145] fix: sim86: closing a handle that is not open is an
 error

---
 sim86.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sim86.c b/sim86.c
index dcc6e0d..f722dd4 100644
--- a/sim86.c
+++ b/sim86.c
@@ -773,8 +773,9 @@ void INT(void)
         HandleOpen(O_RDONLY);
     } else if (func == 0x3E) {
         if (verbose) printf("\nclose(%d)\n", reg[R_BX]);
-        close(reg[R_BX]);
         flags &= ~FC;
+        if (close(reg[R_BX]))
+            FileResult(-1);
     } else if (func == 0x3F) {
         FileResult(ReadToMem(reg[R_BX], reg[R_DX], reg[R_CX]));
     } else if (func == 0x40) {
-- 
2.43.0


From 0f8098366ac3c3ecfaaa82e582f277489617f557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:11 +0000
Subject: [PATCH 116/145] fix: sim86: long file names overflow buffers

---
 sim86.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/sim86.c b/sim86.c
index f722dd4..f6e5100 100644
--- a/sim86.c
+++ b/sim86.c
@@ -557,7 +557,7 @@ void ReadFile(const char* Filename)
 {
     const int fd = open(Filename, O_BINARY | O_RDONLY);
     if (fd < 0) {
-        Fatal("Error opening %s", Filename);
+        Fatal("Error opening file");
     }
 #ifdef PROFILING
     file_size =
@@ -647,19 +647,21 @@ void DEC(void)
     DoIncDec(OP_SUB);
 }
 
-void ReadAsciiz(char* dest, int sr, int off)
+void ReadAsciiz(char* dest, int size, int sr, int off)
 {
     int ch;
     do {
+        if (!size--)
+            Fatal("File name too long");
         ch = Read8(sr, off++);
         *dest++ = (char)ch;
-    } while (ch); 
+    } while (ch);
 }
 
 void HandleOpen(int oflags)
 {
-    char fname[64];
-    ReadAsciiz(fname, SR_DS, reg[R_DX]);
+    char fname[128];
+    ReadAsciiz(fname, sizeof(fname), SR_DS, reg[R_DX]);
     int fd = open(fname, O_BINARY | oflags, 0600);
     if (verbose) printf("\nopen(%s, %d) -> %d\n", fname, oflags, fd);
     if (fd < 0) {
@@ -690,7 +692,9 @@ void DoExit(int ec)
         };
         int num_entries = 1;
         char fname[256];
-        strcpy(fname, filename);
+        fname[0] = 0;
+        if (strlen(filename) < sizeof(fname) - 4)
+            strcpy(fname, filename);
         char* d = strrchr(fname, '.');
         if (d) {
             strcpy(d, ".map");
-- 
2.43.0


From af4ec2d43eaf857b8250219fa4bdbc9a1f8fc8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:11 +0000
Subject: [PATCH 117/145] fix: sim86: -p: more than 4095 symbols overflow the
 table, symbols with the same address

---
 sim86.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sim86.c b/sim86.c
index f6e5100..a09a6c4 100644
--- a/sim86.c
+++ b/sim86.c
@@ -700,7 +700,7 @@ void DoExit(int ec)
             strcpy(d, ".map");
             FILE* fp = fopen(fname, "rt");
             if (fp) {
-                while (fscanf(fp, "%4X %63s\n", (unsigned*)&entries[num_entries].Addr, entries[num_entries].Id) == 2) {
+                while (num_entries < (int)(sizeof(entries)/sizeof(*entries)) && fscanf(fp, "%4X %63s\n", (unsigned*)&entries[num_entries].Addr, entries[num_entries].Id) == 2) {
                     ++num_entries;
                 }
                 fclose(fp);
@@ -712,7 +712,7 @@ void DoExit(int ec)
         int entry = 0;
         printf("Count;Address;Name;Instruction\n");
         for (int i = 0; i < 65536; ++i) {
-            if (entry+1 < num_entries && i >= entries[entry+1].Addr) {
+            while (entry+1 < num_entries && i >= entries[entry+1].Addr) {
                 ++entry;
             }
             if (counts[i])
-- 
2.43.0


From f6a67e19024f528448c20694d042a5e051bafc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:11 +0000
Subject: [PATCH 118/145] fix: sim86: output of the simulated program stays in
 order, transfers at the end of memory

---
 sim86.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sim86.c b/sim86.c
index a09a6c4..29e9575 100644
--- a/sim86.c
+++ b/sim86.c
@@ -54,7 +54,7 @@ Word sreg[4];
 Word ip;
 int flags;
 #ifndef __SCC__
-char mem[1024*1024];
+char mem[1024*1024+65536]; // Room for transfers starting at the end of memory
 enum { DEFAULT_SEGMENT = 0x2000 };
 #else
 int memseg;
@@ -549,6 +549,7 @@ int WriteFromMem(int fd, int off, int size)
     _emit 0x0E // PUSH CS
     _emit 0x1F // POP DS
 #else
+    fflush(stdout);
     return write(fd, mem+MAKEADDR(SR_DS, off), size);
 #endif
 }
-- 
2.43.0


From 946ca4f866bc7503f26ec70962d6a61d7aaa9048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:22 +0000
Subject: [PATCH 119/145] fix: sim86: program file that can't be read

---
 sim86.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sim86.c b/sim86.c
index 29e9575..589fa6b 100644
--- a/sim86.c
+++ b/sim86.c
@@ -560,10 +560,12 @@ void ReadFile(const char* Filename)
     if (fd < 0) {
         Fatal("Error opening file");
     }
+    const int size = ReadToMem(fd, LOAD_OFFSET, 65536-LOAD_OFFSET);
+    if (size == -1)
+        Fatal("Error reading file");
 #ifdef PROFILING
-    file_size =
+    file_size = size;
 #endif
-    ReadToMem(fd, LOAD_OFFSET, 65536-LOAD_OFFSET);
     close(fd);
 }
 
-- 
2.43.0


From f077e4c7b6b2704cb6e4cf620b6ea62bdb8f9180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:09 +0000
Subject: [PATCH 120/145] fix: sim86: -v and -p: operands as on DOS, and
 segment of direct operands

---
 sim86.c | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/sim86.c b/sim86.c
index 589fa6b..79e89fd 100644
--- a/sim86.c
+++ b/sim86.c
@@ -67,6 +67,7 @@ signed char seg;
 
 int verbose;
 char rmtext[20];
+char segtext[4];
 char insttext[64];
 const char* filename;
 
@@ -227,6 +228,14 @@ int Imm16(void)
     return l | ReadIByte() << 8;
 }
 
+const char* SegText(void)
+{
+    if (seg == -1)
+        return "";
+    sprintf(segtext, "%s:", SRegName(seg));
+    return segtext;
+}
+
 void ModRM(void)
 {
     assert(modrm == -1);
@@ -235,7 +244,7 @@ void ModRM(void)
     case 0:
         if ((modrm & 7) == 6) { // Pure disp16
             addr += Imm16();
-            if (verbose) sprintf(rmtext, "[0x%04X]", addr);
+            if (verbose) sprintf(rmtext, "[%s0x%04X]", SegText(), addr);
             if (seg == -1)
                 seg = SR_DS;
             return;
@@ -245,21 +254,14 @@ void ModRM(void)
         addr += (signed char)ReadIByte();
         break;
     case 2:
-        addr += Imm16();
+        addr += (Imm16() ^ 0x8000) - 0x8000;
         break;
     case 3:
         if (verbose) strcpy(rmtext, RegName(modrm&7));
         return;
     }
     if (verbose) {
-        char sr[4];
-        sr[0] = 0;
-        if (seg != -1) {
-            sr[0] = "ECSD"[(unsigned char)seg];
-            sr[1] = 'S';
-            sr[2] = ':';
-            sr[3] = 0;
-        }
+        const char* sr = SegText();
         switch (modrm&7) {
         case 0: sprintf(rmtext, "[%sBX+SI%+d]", sr, addr); break;
         case 1: sprintf(rmtext, "[%sBX+DI%+d]", sr, addr); break;
@@ -916,7 +918,7 @@ int main(int argc, char** argv)
                     Imm = (signed char)ReadIByte();
                 modrm = 0xc0;
                 DoOp(op, reg[R_AX], Imm);
-                if (verbose) sprintf(insttext, "%s A%c, 0x%04X", OpName(op), dsize?'X':'L', Imm);
+                if (verbose) sprintf(insttext, "%s A%c, 0x%04X", OpName(op), dsize?'X':'L', TRIM(Imm));
             } else if (type == 6) {
                 if (inst < 0x26) {
                     const int sr = inst>>3;
@@ -980,7 +982,7 @@ int main(int argc, char** argv)
                     ModRM();
                     const int imm = inst == 0x81 ? Imm16() : (signed char)ReadIByte();
                     DoOp(modrm>>3&7, ReadRM(), imm);
-                    if (verbose) sprintf(insttext, "%s %s, 0x%04X", OpName(modrm>>3&7), rmtext, imm);
+                    if (verbose) sprintf(insttext, "%s %s, 0x%04X", OpName(modrm>>3&7), rmtext, TRIM(imm));
                 }
                 break;
             case 0x88:
@@ -1023,11 +1025,11 @@ int main(int argc, char** argv)
             case 0xA3:
                 {
                     const int Off = Imm16();
-                    if (seg == -1) seg = SR_DS;
                     if (verbose) {
-                        if (inst & 2) sprintf(insttext, "MOV [0x%04X], A%c", Off, inst&1?'X':'L');
-                        else          sprintf(insttext, "MOV A%c, [0x%04X]", inst&1?'X':'L', Off);
+                        if (inst & 2) sprintf(insttext, "MOV [%s0x%04X], A%c", SegText(), Off, inst&1?'X':'L');
+                        else          sprintf(insttext, "MOV A%c, [%s0x%04X]", inst&1?'X':'L', SegText(), Off);
                     }
+                    if (seg == -1) seg = SR_DS;
                     if (inst & 2) {
                         // Store
                         if (inst & 1) {
-- 
2.43.0


From 83c230ecb8177b9f9e0138a73e09334b0447cc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:03 +0000
Subject: [PATCH 121/145] fix: sim86: -p: the program's own output is not
 changed

---
 sim86.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sim86.c b/sim86.c
index 79e89fd..3cce624 100644
--- a/sim86.c
+++ b/sim86.c
@@ -668,7 +668,7 @@ void HandleOpen(int oflags)
     char fname[128];
     ReadAsciiz(fname, sizeof(fname), SR_DS, reg[R_DX]);
     int fd = open(fname, O_BINARY | oflags, 0600);
-    if (verbose) printf("\nopen(%s, %d) -> %d\n", fname, oflags, fd);
+    if (verbose == 1) printf("\nopen(%s, %d) -> %d\n", fname, oflags, fd);
     if (fd < 0) {
         flags |= FC;
         fd = 2; // File not found
@@ -680,7 +680,7 @@ void HandleOpen(int oflags)
 
 void DoExit(int ec)
 {
-    if (verbose) {
+    if (verbose == 1) {
         if (ec)
             printf("\nExiting with error code %d\n", ec);
         else
@@ -772,7 +772,7 @@ void INT(void)
     const int func = reg[R_AX]>>8&0xff;
     if (func == 0x02) {
         int c = reg[R_DX]&0xff;
-        if (verbose)
+        if (verbose == 1)
             printf("\nOutput: 0x%02X (%c)", c, c >= ' ' ? c : '.');
         else
             putchar(c);
@@ -781,7 +781,7 @@ void INT(void)
     } else if (func == 0x3D) {
         HandleOpen(O_RDONLY);
     } else if (func == 0x3E) {
-        if (verbose) printf("\nclose(%d)\n", reg[R_BX]);
+        if (verbose == 1) printf("\nclose(%d)\n", reg[R_BX]);
         flags &= ~FC;
         if (close(reg[R_BX]))
             FileResult(-1);
@@ -885,7 +885,8 @@ int main(int argc, char** argv)
 
             if (!addrtext[orig_ip]) {
                 remove_verbose = !verbose;
-                verbose = 1;
+                if (remove_verbose)
+                    verbose = 2; // Only for the text of the instruction
             }
         }
 #endif
-- 
2.43.0


From 336d2bbdf0bb70080bc11ef9a859d6b8a05f697d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:40 +0000
Subject: [PATCH 122/145] fix: sim86: -p: symbol of a return address after the
 last one of the map

---
 sim86.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/sim86.c b/sim86.c
index 3cce624..a27cf85 100644
--- a/sim86.c
+++ b/sim86.c
@@ -734,11 +734,9 @@ void DoExit(int ec)
         printf("\nBP;Return address;Size;Symbol\n");
         for (int i = 0; i < max_stack.depth; ++i) {
             struct StackFrame* f = &max_stack.frames[i];
-            for (entry = 0; entry < num_entries; ++entry) {
-                if (entries[entry].Addr > f->ip) {
-                    --entry;
-                    break;
-                }
+            entry = 0;
+            while (entry+1 < num_entries && f->ip >= entries[entry+1].Addr) {
+                ++entry;
             }
             const struct E* e = &entries[entry];
             const int LastBP = i + 1 < max_stack.depth ? max_stack.frames[i+1].bp : 65536;
-- 
2.43.0


From 07d31e6de4c50253da28aca1befa2d85c819a5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:08 +0000
Subject: [PATCH 123/145] fix: sim86: -p: shift of a negative value

---
 sim86.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim86.c b/sim86.c
index a27cf85..1d884aa 100644
--- a/sim86.c
+++ b/sim86.c
@@ -795,7 +795,7 @@ void INT(void)
 }
 
 #ifdef PROFILING
-#define READSS(off) (mem[MAKEADDR(SR_SS, (off))]&0xff)|mem[MAKEADDR(SR_SS, (off)+1)]<<8
+#define READSS(off) ((mem[MAKEADDR(SR_SS, (off))]&0xff)|(mem[MAKEADDR(SR_SS, (off)+1)]&0xff)<<8)
 
 struct Stack RecordStack(void)
 {
-- 
2.43.0


From d70d8df2930afb9645629865076510f6993eb5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:34 +0000
Subject: [PATCH 124/145] fix: sim86: output of the simulated program is not
 translated under DOS

---
 sim86.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/sim86.c b/sim86.c
index 1d884aa..1fb10e1 100644
--- a/sim86.c
+++ b/sim86.c
@@ -747,6 +747,15 @@ void DoExit(int ec)
     exit(ec);
 }
 
+void RawPutChar(int ch)
+{
+#ifdef __SCC__
+    raw_putchar(ch); // No newline translation
+#else
+    putchar(ch);
+#endif
+}
+
 void FileResult(int r)
 {
     flags &= ~FC;
@@ -773,7 +782,7 @@ void INT(void)
         if (verbose == 1)
             printf("\nOutput: 0x%02X (%c)", c, c >= ' ' ? c : '.');
         else
-            putchar(c);
+            RawPutChar(c);
     } else if (func == 0x3C) {
         HandleOpen(O_WRONLY | O_CREAT | O_TRUNC);
     } else if (func == 0x3D) {
-- 
2.43.0


From 20d903ecde86b4696ea683dfcfbbbe540460897a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:47 +0000
Subject: [PATCH 125/145] fix: lib.h: %d with -32768

---
 lib.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib.h b/lib.h
index 9b969bb..92e61ec 100644
--- a/lib.h
+++ b/lib.h
@@ -189,6 +189,7 @@ char* vsprintf(char* dest, const char* format, va_list vl)
         } else if ((ch == '+' && *format == 'd') || ch == 'd') {
             char* buf;
             int n;
+            unsigned u;
             int s;
             int always;
             if (ch == '+') {
@@ -198,18 +199,19 @@ char* vsprintf(char* dest, const char* format, va_list vl)
                 always = 0;
             }
             n = va_arg(vl, int);
+            u = n;
             s = 0;
             if (n < 0) {
                 s = 1;
-                n = -n;
+                u = -n;
             }
             buf = TempBuf + sizeof(TempBuf);
             *--buf = 0;
             do {
-                *--buf = '0' + n % 10;
-                n/=10;
+                *--buf = '0' + u % 10;
+                u/=10;
                 --w;
-            } while (n);
+            } while (u);
             if (s) {
                 *--buf = '-';
                 --w;
-- 
2.43.0


From 63bbc5d77012d2e1d5167c8b906d3c5966e472e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:50 +0000
Subject: [PATCH 126/145] fix: lib.h: %x and %X print as many digits as needed,
 %x in lower case

---
 lib.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/lib.h b/lib.h
index 92e61ec..287fa91 100644
--- a/lib.h
+++ b/lib.h
@@ -222,13 +222,17 @@ char* vsprintf(char* dest, const char* format, va_list vl)
             while (w-- > 0) *dest++ = fill;
             dest  = CopyStr(dest, buf);
         } else if (ch == 'x' || ch == 'X') {
-            const char* HexD = "0123456789ABCDEF";
-            int n = va_arg(vl, int);
-            int i = 3;
-            if (w) i = w-1;
-            for (; i >= 0; --i) {
-                *dest++ = HexD[(n>>i*4)&0xf];
-            }
+            const char* HexD = ch == 'x' ? "0123456789abcdef" : "0123456789ABCDEF";
+            unsigned n = va_arg(vl, int);
+            char* buf = TempBuf + sizeof(TempBuf);
+            *--buf = 0;
+            do {
+                *--buf = HexD[n&0xf];
+                n >>= 4;
+                --w;
+            } while (n);
+            while (w-- > 0) *dest++ = fill;
+            dest = CopyStr(dest, buf);
         } else {
             *dest++ = ch;
         }
@@ -343,7 +347,7 @@ void assert(int res)
         int* BP = GetBP();
         printf("\nBP   Return address\n");
         while (*BP) {
-            printf("%X %X\n", BP[0], BP[1]);
+            printf("%04X %04X\n", BP[0], BP[1]);
             BP = (int*)BP[0];
         }
         exit(1);
-- 
2.43.0


From 01638d038c150f964c7e02f324af0a58e569a7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:53 +0000
Subject: [PATCH 127/145] fix: lib.h: %0Nd with a sign

---
 lib.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib.h b/lib.h
index 287fa91..0e63a40 100644
--- a/lib.h
+++ b/lib.h
@@ -213,13 +213,15 @@ char* vsprintf(char* dest, const char* format, va_list vl)
                 --w;
             } while (u);
             if (s) {
-                *--buf = '-';
+                s = '-';
                 --w;
             } else if (always) {
-                *--buf = '+';
+                s = '+';
                 --w;
             }
+            if (s && fill == '0') *dest++ = (char)s;
             while (w-- > 0) *dest++ = fill;
+            if (s && fill != '0') *dest++ = (char)s;
             dest  = CopyStr(dest, buf);
         } else if (ch == 'x' || ch == 'X') {
             const char* HexD = ch == 'x' ? "0123456789abcdef" : "0123456789ABCDEF";
-- 
2.43.0


From 8d49dbbd9d2258063110ebd50d4cebcfcc69cecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:30 +0000
Subject: [PATCH 128/145] fix: lib.h: more than 16 arguments overwrite the
 command line

---
 lib.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib.h b/lib.h
index 0e63a40..cc4bebd 100644
--- a/lib.h
+++ b/lib.h
@@ -120,11 +120,11 @@ int write(int fd, const char* buf, int count)
     return ax;
 }
 
-enum { _ARGV = 0x5C }; // Overwrite unopened FCBs
+char* _ARGV[66]; // Enough for any command line
 
 int ParseArgs()
 {
-    char** Args = _ARGV;
+    char** Args = &_ARGV[0];
     char* CmdLine = (char*)0x80;
     int Len = *CmdLine++ & 0x7f;
     CmdLine[Len] = 0;
-- 
2.43.0


From 03c5561445466c33a235fd4292a35e4ab67b442d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:33 +0000
Subject: [PATCH 129/145] fix: lib.h: characters above 127 are no white space
 in arguments

---
 lib.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib.h b/lib.h
index cc4bebd..a4f47ba 100644
--- a/lib.h
+++ b/lib.h
@@ -125,7 +125,7 @@ char* _ARGV[66]; // Enough for any command line
 int ParseArgs()
 {
     char** Args = &_ARGV[0];
-    char* CmdLine = (char*)0x80;
+    unsigned char* CmdLine = (unsigned char*)0x80;
     int Len = *CmdLine++ & 0x7f;
     CmdLine[Len] = 0;
     Args[0] = "???";
@@ -135,7 +135,7 @@ int ParseArgs()
             ++CmdLine;
         if (!*CmdLine)
             break;
-        Args[NumArgs++] = CmdLine;
+        Args[NumArgs++] = (char*)CmdLine;
         while (*CmdLine && *CmdLine > ' ')
             ++CmdLine;
         if (!*CmdLine)
-- 
2.43.0


From 914d1fce32e6e86325c2a79bbb48b14eb2b39bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:22 +0000
Subject: [PATCH 130/145] fix: lib.h: sign of strcmp

---
 lib.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib.h b/lib.h
index a4f47ba..9b0846e 100644
--- a/lib.h
+++ b/lib.h
@@ -288,7 +288,7 @@ int strcmp(const char* a, const char* b)
     _emit 0x75 _emit 0x04               // JNZ DONE
     _emit 0x20 _emit 0xE4               // AND AH, AH
     _emit 0x75 _emit 0xF4               // JNZ L
-    _emit 0x98                          // DONE: CBW
+    _emit 0x18 _emit 0xE4               // DONE: SBB AH, AH
 }
 
 int strlen(const char* s)
-- 
2.43.0


From 30e9a1c12d71627d8e1c4260e1b36f9441a9b0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 131/145] fix: swar: exit status

---
 swar.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/swar.c b/swar.c
index b525f47..da0438b 100644
--- a/swar.c
+++ b/swar.c
@@ -609,4 +609,5 @@ int main()
     }
 Done:
     Int10h(INT10H_SETMODE|OldMode, 0);
+    return 0;
 }
-- 
2.43.0


From 25e2fbc6349ca79691a7e947d5d8369ff46e997a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 132/145] fix: swar: hangs at start for some values of the
 clock

---
 swar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swar.c b/swar.c
index da0438b..618b1a6 100644
--- a/swar.c
+++ b/swar.c
@@ -340,7 +340,7 @@ char Col[4][4];
 
 int Grass[SCREENW];
 
-int Seed = 43;
+unsigned Seed = 43;
 int Rand(void)
 {
     int b = Seed & 1;
-- 
2.43.0


From 82c21b5a8c3d7523b4f2d2ac8a5b8e4a948fbd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:35 +0000
Subject: [PATCH 133/145] fix: swar: overflow of the keyboard buffer of the
 Windows version

---
 swar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swar.c b/swar.c
index 618b1a6..5a5ca82 100644
--- a/swar.c
+++ b/swar.c
@@ -204,7 +204,7 @@ static LRESULT CALLBACK WindowProc(HWND hwnd, UINT umsg, WPARAM wparam, LPARAM l
             // Hack to roughly match BIOS output
             if (!isdigit(wparam) && (wparam < 'A' || wparam > 'Z') && wparam != 0x0D && wparam != 0x1B && wparam != ' ')
                 wparam = 0;
-            if (KBTail - KBHead < sizeof(KeyboardBuffer)) {
+            if (KBTail - KBHead < KBBUF_SIZE) {
                 KeyboardBuffer[KBTail++ % KBBUF_SIZE] = (wparam&0xff)|((lparam>>8)&0xff00);
             }
         }
-- 
2.43.0


From 085a07a9a144b34d729cabac3c948e9c09daf3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:04 +0000
Subject: [PATCH 134/145] fix: scpp: token text is kept after uses of macros
 with arguments

---
 scpp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scpp.c b/scpp.c
index 7a62aad..0b8fbbf 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1078,7 +1078,7 @@ void GetToken(void)
 
         ReplaceId();
         if (!ReplaceNest && CurTok.Type >= TOK_ID)
-            NextTokenDataPos = PermTokenDataPos; // Not needed anymore
+            TokenDataPos = NextTokenDataPos = PermTokenDataPos; // Not needed anymore
         const int Id = CurTok.Type;
         if (Id < TOK_ID)
             return;
-- 
2.43.0


From 416c98384eef079c118b4b3678fbc87c5940c030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:09 +0000
Subject: [PATCH 135/145] fix: scc: ` starts no identifier

---
 scc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index fba2e75..eaf26df 100644
--- a/scc.c
+++ b/scc.c
@@ -715,7 +715,7 @@ void GetToken(void)
             TokenType = TOK_NUM;
             return;
         }
-    } else if ((TokenType & 0xDF) <= 'Z') {
+    } else if ((TokenType & 0xDF) <= 'Z' && TokenType != '`') {
     Identifier: ;
         char* pc = IdBufPtr;
         unsigned Hash = (*pc++ = TokenType);
-- 
2.43.0


From 2d46e63674eec069e61bf6cf57838ca7740b1cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:29 +0000
Subject: [PATCH 136/145] fix: scc: @ and ` are no digits

---
 scc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index eaf26df..f112f99 100644
--- a/scc.c
+++ b/scc.c
@@ -630,7 +630,7 @@ unsigned GetNum(unsigned Init, unsigned Base, int MaxLen)
     unsigned d;
     while (MaxLen--) {
         if ((d = CurChar - '0') > 9)
-            d = (CurChar & 0xdf) - ('A'-10);
+            d = (CurChar - 1 & 0xdf) - ('A'-11); // '@' and '`' aren't digits
         if (d >= Base)
             break;
         Init = Init*Base + d;
-- 
2.43.0


From 07c10ecf5f94a662004fc9b81927ef3e99b211bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:39 +0000
Subject: [PATCH 137/145] fix: scpp: ` starts no identifier

---
 scpp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scpp.c b/scpp.c
index 0b8fbbf..3fc7b9c 100644
--- a/scpp.c
+++ b/scpp.c
@@ -843,7 +843,7 @@ Restart:
             }
             goto Out;
         }
-    } else if ((CurrentChar&0xDF) <= 'Z') {
+    } else if ((CurrentChar&0xDF) <= 'Z' && CurrentChar != '`') {
 Identifier:
         CurTok.Type = TOK_RAW_ID;
         CurHash = 0;
-- 
2.43.0


From b737273cccbb90d6b58d12cd3b71565eeb6be7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:55 +0000
Subject: [PATCH 138/145] fix: the DOS builds print -32768 (n = -n stays
 negative)

---
 sas.c  | 4 ++--
 scc.c  | 4 ++--
 scpp.c | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/sas.c b/sas.c
index cc112b0..497150a 100644
--- a/sas.c
+++ b/sas.c
@@ -170,7 +170,7 @@ char* vsprintf(char* dest, const char* format, va_list vl)
             *dest++ = (char)va_arg(vl, int);
         } else if ((ch == '+' && *format == 'd') || ch == 'd') {
             char* buf;
-            int n;
+            unsigned n;
             int s;
             int always;
             if (ch == '+') {
@@ -181,7 +181,7 @@ char* vsprintf(char* dest, const char* format, va_list vl)
             }
             n = va_arg(vl, int);
             s = 0;
-            if (n < 0) {
+            if ((int)n < 0) {
                 s = 1;
                 n = -n;
             }
diff --git a/scc.c b/scc.c
index f112f99..19afa31 100644
--- a/scc.c
+++ b/scc.c
@@ -460,7 +460,7 @@ char* VSPrintf(char* dest, const char* format, va_list vl)
             *dest++ = va_arg(vl, int);
         } else if ((ch == '+' && *format == 'd') || ch == 'd') {
             char* buf;
-            int n;
+            unsigned n;
             int s;
             int always;
             if (ch == '+') {
@@ -471,7 +471,7 @@ char* VSPrintf(char* dest, const char* format, va_list vl)
             }
             n = va_arg(vl, int);
             s = 0;
-            if (n < 0) {
+            if ((int)n < 0) {
                 s = 1;
                 n = -n;
             }
diff --git a/scpp.c b/scpp.c
index 3fc7b9c..ebed2e1 100644
--- a/scpp.c
+++ b/scpp.c
@@ -176,7 +176,7 @@ char* vsprintf(char* dest, const char* format, va_list vl)
             *dest++ = (char)va_arg(vl, int);
         } else if ((ch == '+' && *format == 'd') || ch == 'd') {
             char* buf;
-            int n;
+            unsigned n;
             int s;
             int always;
             if (ch == '+') {
@@ -187,7 +187,7 @@ char* vsprintf(char* dest, const char* format, va_list vl)
             }
             n = va_arg(vl, int);
             s = 0;
-            if (n < 0) {
+            if ((int)n < 0) {
                 s = 1;
                 n = -n;
             }
-- 
2.43.0


From 277e0f534fc5af4964280792141295707ac6bf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:11 +0000
Subject: [PATCH 139/145] fix: late globals overwrite the parameters'
 declarations

---
 scc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scc.c b/scc.c
index 19afa31..d27d7ff 100644
--- a/scc.c
+++ b/scc.c
@@ -379,6 +379,7 @@ struct VarDecl VarDecls[VARDECL_MAX];
 struct VarDecl* VarLookup[ID_MAX];
 int IgnoreRedef;
 
+int LateGlobalEnd; // One more than the last VarDecl index available for "late globals" (then come the arguments)
 int Scopes[SCOPE_MAX]; // -> Next free VarDecl index (conversely one more than index of last defined variable/id)
 int ScopeCount = 1; // First scope is global
 
@@ -1644,7 +1645,7 @@ struct VarDecl* AddVarDecl(int Id)
 
 struct VarDecl* AddLateGlobalVar(int Id)
 {
-    if ((CurrentVal = Scopes[0]) >= Scopes[1]) Fail();
+    if ((CurrentVal = Scopes[0]) == LateGlobalEnd) Fail();
     return AddVarDeclScope(0, Id);
 }
 
@@ -3415,7 +3416,7 @@ void ParseExternalDefition(void)
         // Make room for "late globals"
         if (Scopes[0] > VARDECL_MAX-GLOBAL_RESERVE) Fail();
         memset(&VarDecls[Scopes[0]], -1, sizeof(VarDecls[0])*GLOBAL_RESERVE);
-        Scopes[0] += GLOBAL_RESERVE;
+        LateGlobalEnd = Scopes[0] += GLOBAL_RESERVE;
         PushScope();
         Scopes[0] -= GLOBAL_RESERVE;
         for (i = 0; i < ArgsCount; ++i) {
-- 
2.43.0


From 32ccb99079f589a65b365a623cfbd4c036f7a355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:43 +0000
Subject: [PATCH 140/145] fix: scc: errors reading and writing files are
 reported

---
 scc.c | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/scc.c b/scc.c
index d27d7ff..ad1eda1 100644
--- a/scc.c
+++ b/scc.c
@@ -106,20 +106,19 @@ void close(int fd)
     DosCall(&ax, fd, 0, 0);
 }
 
-int read(int fd, char* buf, int count)
+void Fail(void);
+
+int Read(int fd, char* buf, int count)
 {
     int ax = 0x3f00;
-    if (DosCall(&ax, fd, count, buf))
-        return 0;
+    if (DosCall(&ax, fd, count, buf)) Fail();
     return ax;
 }
 
-int write(int fd, const char* buf, int count)
+void Write(int fd, const char* buf, int count)
 {
     int ax = 0x4000;
-    if (DosCall(&ax, fd, count, buf))
-        return 0;
-    return ax;
+    if (DosCall(&ax, fd, count, buf) || ax != count) Fail();
 }
 
 enum { ARGS = 0x5C }; // Overwrite unopened FCBs
@@ -540,6 +539,8 @@ void Fail(void)
 
 #ifndef __SCC__
 #define Fail() do { Printf("In %s:%d: ", __FILE__, __LINE__); Fail(); } while (0)
+#define Read(fd, buf, count) ((InBufEnd = buf + read(fd, buf, count)) < buf ? Fatal("Error reading input file"), 0 : (int)(InBufEnd - buf))
+#define Write(fd, buf, count) do { if (write(fd, buf, count) != (count)) Fatal("Error writing output file"); } while (0)
 #endif
 
 
@@ -552,13 +553,9 @@ void NextChar(void)
     if ((CurChar = *InBufPtr++))
         return;
     InBufPtr = InBuf;
-    InBufEnd = InBuf + read(InFile, InBuf, INBUF_MAX);
+    InBufEnd = InBuf + Read(InFile, InBuf, INBUF_MAX);
     *InBufEnd = 0;
-    if (InBufPtr == InBufEnd) {
-        CurChar = 0;
-        return;
-    }
-    CurChar = *InBufPtr++;
+    if ((CurChar = *InBufPtr)) ++InBufPtr;
 }
 
 int SkipWhitespace(void)
@@ -1169,13 +1166,13 @@ void EmitGlobalLabel(struct VarDecl* vd)
 
     char Addr[6];
     *CvtHex(Addr, CodeAddress) = ' ';
-    write(MapFile, Addr, 5);
+    Write(MapFile, Addr, 5);
     const char* Name = vd->Id == -2 ? StaticName : IdText[vd->Id];
     const char* End = Name;
     while (*End)
         ++End;
-    write(MapFile, Name, (int)(End - Name));
-    write(MapFile, "\r\n", 2);
+    Write(MapFile, Name, (int)(End - Name));
+    Write(MapFile, "\r\n", 2);
 }
 
 void EmitGlobalRef(struct VarDecl* vd)
@@ -3592,7 +3589,7 @@ int main(int argc, char** argv)
     else
         MakeOutputFilename(argv[1], ".com");
     const int OutFile = OpenOutput();
-    write(OutFile, Output, SBSS->Offset - CODESTART);
+    Write(OutFile, Output, SBSS->Offset - CODESTART);
     close(OutFile);
 
     return 0;
-- 
2.43.0


From 31b53b2ba3a0240dda4ecfd8ee34aaa043b03864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:58 +0000
Subject: [PATCH 141/145] fix: sas: errors reading and writing files are
 reported

---
 sas.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/sas.c b/sas.c
index 497150a..2e2c8ce 100644
--- a/sas.c
+++ b/sas.c
@@ -102,7 +102,7 @@ int read(int fd, char* buf, int count)
     int ax;
     ax = 0x3f00;
     if (DosCall(&ax, fd, count, buf))
-        return 0;
+        return -1;
     return ax;
 }
 
@@ -111,7 +111,7 @@ int write(int fd, const char* buf, int count)
     int ax;
     ax = 0x4000;
     if (DosCall(&ax, fd, count, buf))
-        return 0;
+        return -1;
     return ax;
 }
 
@@ -554,8 +554,10 @@ void ReadChar(void)
     if (InBufCnt == InBufSize) {
         InBufCnt = 0;
         InBufSize = read(InFile, InBuf, INBUF_MAX);
-        if (InBufSize <= 0) {
-            InBufSize = 0;
+        if (InBufSize < 0) {
+            Fatal("Error reading input file");
+        }
+        if (!InBufSize) {
             CurrentChar = 0;
             return;
         }
@@ -1738,7 +1740,9 @@ int main(int argc, char** argv)
     if (OutFile < 0) {
         Fatal("Error creating output file");
     }
-    write(OutFile, OutputBuf, OutputBufPos);
+    if (write(OutFile, OutputBuf, OutputBufPos) != OutputBufPos) {
+        Fatal("Error writing output file");
+    }
     close(OutFile);
     return 0;
 }
-- 
2.43.0


From 5ec92f36beae40f06b91b2caf9c641c091109183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:01 +0000
Subject: [PATCH 142/145] fix: scpp: errors reading and writing files are
 reported

---
 scpp.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/scpp.c b/scpp.c
index ebed2e1..d3fbcfc 100644
--- a/scpp.c
+++ b/scpp.c
@@ -106,7 +106,7 @@ int read(int fd, char* buf, int count)
 {
     int ax = 0x3f00;
     if (DosCall(&ax, fd, count, buf))
-        return 0;
+        return -1;
     return ax;
 }
 
@@ -114,7 +114,7 @@ int write(int fd, const char* buf, int count)
 {
     int ax = 0x4000;
     if (DosCall(&ax, fd, count, buf))
-        return 0;
+        return -1;
     return ax;
 }
 
@@ -468,8 +468,11 @@ void ReadChar(void)
 
     CurFileBuf = CurFile->Buf;
     CurFile->BufSize = read(CurFile->FD, CurFile->Buf, sizeof(CurFile->Buf)-1);
-    if (CurFile->BufSize <= 0) {
-        CurFile->BufSize = 0;
+    if (CurFile->BufSize < 0) {
+        printf("Error reading %s\n", CurFile->Filename);
+        exit(1);
+    }
+    if (!CurFile->BufSize) {
         CurrentChar = 0;
     } else {
         CurrentChar = *CurFileBuf++;
@@ -1629,6 +1632,14 @@ void HandleDirective(void)
     InDirective = 0;
 }
 
+void WriteOutput(int Size)
+{
+    if (write(OutFile->FD, OutFile->Buf, Size) != Size) {
+        printf("Error writing %s\n", OutFile->Filename);
+        exit(1);
+    }
+}
+
 void OutputStr(const char* Str)
 {
     char* Buf = OutFile->BufPtr;
@@ -1636,7 +1647,7 @@ void OutputStr(const char* Str)
     while ((*Buf = *Str++)) {
         if (++Buf != End)
             continue;
-        write(OutFile->FD, OutFile->Buf, sizeof(OutFile->Buf));
+        WriteOutput(sizeof(OutFile->Buf));
         Buf = OutFile->Buf;
     }
     OutFile->BufPtr = Buf;
@@ -1800,7 +1811,7 @@ int main(int argc, char** argv)
 
     PPMain();
 
-    write(OutFile->FD, OutFile->Buf, OutFile->BufPtr - OutFile->Buf);
+    WriteOutput(OutFile->BufPtr - OutFile->Buf);
     CloseFile();
     assert(NumFiles == 0);
 
-- 
2.43.0


From 77e2fd368849ee95a2684094525c3fa03e263f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:08 +0000
Subject: [PATCH 143/145] fix: sas: diagnostics named the line after the one in
 error when its last token ended a line

---
 sas.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sas.c b/sas.c
index 2e2c8ce..45881e4 100644
--- a/sas.c
+++ b/sas.c
@@ -401,7 +401,8 @@ char InBuf[INBUF_MAX];
 int InBufCnt;
 int InBufSize;
 
-int Line = 1;
+int Line = 1;     // Line of the current token
+int CharLine = 1; // Line of CurrentChar
 char CurrentChar;
 
 char IdBuffer[IDBUFFER_MAX];
@@ -563,7 +564,7 @@ void ReadChar(void)
         }
     }
     CurrentChar = InBuf[InBufCnt++];
-    if (CurrentChar == '\n') ++Line;
+    if (CurrentChar == '\n') ++CharLine;
 }
 
 int IsDigit(void)
@@ -638,6 +639,7 @@ SkipSpaces:
         goto SkipSpaces;
     }
 
+    Line = CharLine;
     TokenType = CurrentChar;
 
     if (!CurrentChar) {
-- 
2.43.0


From 7e1c1bf1ec7483763513c08b0e48efbfe1633b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:50 +0000
Subject: [PATCH 144/145] fix: sas: a message used %02X, which the DOS build's
 vsprintf does not know

---
 sas.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sas.c b/sas.c
index 45881e4..5d492d7 100644
--- a/sas.c
+++ b/sas.c
@@ -894,7 +894,7 @@ int TranslateMemMod(int Start)
             return 5;
         break;
     }
-    Fatal("TODO %s in mem parsing orig=%02X\n", TokenText(), Start);
+    Fatal("TODO %s in mem parsing orig=%d\n", TokenText(), Start);
     return -1;
 }
 
-- 
2.43.0


From d3fb42e7caafd80a59a62cc03f760776ae451e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:34 +0000
Subject: [PATCH 145/145] fix: scc: -32768 / -1 in a constant stopped the DOS
 build with a divide error

---
 scc.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index ad1eda1..0818262 100644
--- a/scc.c
+++ b/scc.c
@@ -2298,7 +2298,14 @@ void DoRhsConstBinOp(int Op)
 
 int DoConstBinOp(int Op, int L, int R)
 {
-    if (!R && (Op == '/' || Op == '%')) Fatal("Division by zero");
+    if (Op == '/' || Op == '%') {
+        if (!R) Fail(); // Division by zero
+        if (R == -1) {
+            // -32768 / -1 would overflow
+            L = -L;
+            R = 1;
+        }
+    }
     switch (Op) {
     case '+':     return L + R;
     case '-':     return L - R;
-- 
2.43.0

