From b4a136e03da2f817e9ce7652e2e223f7753ced14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:22 +0000
Subject: [PATCH 01/93] fix: short-circuit operators use the block their right
 operand ends in as PHI predecessor

---
 expr.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 381318c..72b5f31 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -1043,12 +1043,14 @@ static llvm::Value* ShortCtOr(ExprAST* lhs, ExprAST* rhs)
     llvm::Value* r = rhs->CodeGen();
     llvm::Value* condr = builder.CreateICmpNE(r, bfalse, "condr");
 
+    // The right hand side may itself have created new blocks.
+    llvm::BasicBlock* rhsBlock = builder.GetInsertBlock();
     builder.CreateBr(mergeBB);
 
     builder.SetInsertPoint(mergeBB);
     llvm::PHINode* phi = builder.CreatePHI(Types::Get<Types::BoolDecl>()->LlvmType(), 2, "phi");
     phi->addIncoming(btrue, originBlock);
-    phi->addIncoming(condr, falseBB);
+    phi->addIncoming(condr, rhsBlock);
     return phi;
 }
 
@@ -1067,12 +1069,14 @@ static llvm::Value* ShortCtAnd(ExprAST* lhs, ExprAST* rhs)
     llvm::Value* r = rhs->CodeGen();
     llvm::Value* condr = builder.CreateICmpNE(r, bfalse, "condr");
 
+    // The right hand side may itself have created new blocks.
+    llvm::BasicBlock* rhsBlock = builder.GetInsertBlock();
     builder.CreateBr(mergeBB);
 
     builder.SetInsertPoint(mergeBB);
     llvm::PHINode* phi = builder.CreatePHI(Types::Get<Types::BoolDecl>()->LlvmType(), 2, "phi");
     phi->addIncoming(bfalse, originBlock);
-    phi->addIncoming(condr, trueBB);
+    phi->addIncoming(condr, rhsBlock);
     return phi;
 }
 
-- 
2.43.0


From fc4995a996c84c5526af2f5d83266e549c175813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:22 +0000
Subject: [PATCH 02/93] fix: for-in loops use the block the loop body ends in
 as PHI predecessor

---
 expr.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 72b5f31..96c5536 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -2517,7 +2517,7 @@ llvm::Value* GenForInSet(ForExprAST* expr, Types::SetDecl* sd)
 
     bitset = builder.CreateAnd(phi, builder.CreateNot(builder.CreateShl(one, pos)));
     isZero = builder.CreateICmpEQ(bitset, zero);
-    phi->addIncoming(bitset, loopBB);
+    phi->addIncoming(bitset, builder.GetInsertBlock());
     builder.CreateCondBr(isZero, nextLoopBB, loopBB);
 
     builder.SetInsertPoint(nextLoopBB);
@@ -2577,7 +2577,7 @@ llvm::Value* GenForInArr(ForExprAST* expr, Types::ArrayDecl* ad)
     ICE_IF(!expr->body->CodeGen(), "Failed to generate loop body");
 
     index = builder.CreateAdd(idxPhi, one);
-    idxPhi->addIncoming(index, loopBB);
+    idxPhi->addIncoming(index, builder.GetInsertBlock());
     builder.CreateBr(preLoopBB);
 
     builder.SetInsertPoint(afterBB);
-- 
2.43.0


From aec6608ac089da0c26ccda61d102af80538ed319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:03 +0000
Subject: [PATCH 03/93] fix: 1 pow n is 1 for a negative n

---
 expr.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 96c5536..bc5cd88 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -1115,6 +1115,7 @@ static llvm::Value* PowerInt(llvm::Value* base, llvm::Value* exp, Types::TypeDec
     // e < 0 case:
     builder.SetInsertPoint(expNegBB);
     llvm::Value* bIsMinus1 = builder.CreateICmpEQ(base, MakeIntegerConstant(-1), "isNeg1");
+    llvm::Value* negRes = builder.CreateSelect(builder.CreateICmpEQ(base, one, "isOne"), one, zero);
     builder.CreateCondBr(bIsMinus1, oddEvenBB, doneBB);
 
     builder.SetInsertPoint(oddEvenBB);
@@ -1155,8 +1156,8 @@ static llvm::Value* PowerInt(llvm::Value* base, llvm::Value* exp, Types::TypeDec
 
     builder.SetInsertPoint(doneBB);
     llvm::PHINode* phi = builder.CreatePHI(ty->LlvmType(), 3, "phi");
-    // e < 0, b != -1
-    phi->addIncoming(zero, expNegBB);
+    // e < 0, b != -1: 1 for b = 1, otherwise 0
+    phi->addIncoming(negRes, expNegBB);
     // e < 0, e is odd, b = -1
     phi->addIncoming(base, oddEvenBB);
     // all other cases.
-- 
2.43.0


From a2bbf8ed35a14ae0c410ab19f51fa33b04252bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:37 +0000
Subject: [PATCH 04/93] fix: pow works on longint operands

---
 expr.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index bc5cd88..a168636 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -1104,17 +1104,17 @@ static llvm::Value* PowerInt(llvm::Value* base, llvm::Value* exp, Types::TypeDec
     llvm::BasicBlock* moreMergeBB = llvm::BasicBlock::Create(theContext, "moreMerge", theFunction);
     llvm::BasicBlock* doneBB = llvm::BasicBlock::Create(theContext, "powdone", theFunction);
 
-    llvm::Constant* one = MakeIntegerConstant(1);
-    llvm::Constant* zero = MakeIntegerConstant(0);
+    llvm::Constant* one = MakeConstant(1, ty);
+    llvm::Constant* zero = MakeConstant(0, ty);
     llvm::Value*    res = CreateTempAlloca(ty);
     builder.CreateStore(one, res);
-    llvm::Type* intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
+    llvm::Type* intTy = ty->LlvmType();
 
     llvm::Value* expneg = builder.CreateICmpSLT(exp, zero, "expneg");
     builder.CreateCondBr(expneg, expNegBB, loopBB);
     // e < 0 case:
     builder.SetInsertPoint(expNegBB);
-    llvm::Value* bIsMinus1 = builder.CreateICmpEQ(base, MakeIntegerConstant(-1), "isNeg1");
+    llvm::Value* bIsMinus1 = builder.CreateICmpEQ(base, MakeConstant(-1, ty), "isNeg1");
     llvm::Value* negRes = builder.CreateSelect(builder.CreateICmpEQ(base, one, "isOne"), one, zero);
     builder.CreateCondBr(bIsMinus1, oddEvenBB, doneBB);
 
@@ -1148,7 +1148,7 @@ static llvm::Value* PowerInt(llvm::Value* base, llvm::Value* exp, Types::TypeDec
     phiMerge->addIncoming(valEven, moreEvenBB);
     phiMerge->addIncoming(valOdd, moreOddBB);
     llvm::PHINode* phiMerge2 = builder.CreatePHI(ty->LlvmType(), 2, "phi");
-    phiMerge2->addIncoming(MakeIntegerConstant(2), moreEvenBB);
+    phiMerge2->addIncoming(MakeConstant(2, ty), moreEvenBB);
     phiMerge2->addIncoming(one, moreOddBB);
     builder.CreateStore(phiMerge, res);
     phiLoop->addIncoming(builder.CreateSub(phiLoop, phiMerge2), moreMergeBB);
-- 
2.43.0


From ec91287a8229c43367f722ed37546ce3727473ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:10 +0000
Subject: [PATCH 05/93] fix: evaluate an integer operand once when it is
 converted to complex

---
 expr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.cpp b/expr.cpp
index a168636..2b39351 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -4056,7 +4056,7 @@ llvm::Value* TypeCastAST::Address()
 
 	if (IsIntegral(current))
 	{
-	    re = builder.CreateSIToFP(expr->CodeGen(), realTy, "tofp");
+	    re = builder.CreateSIToFP(re, realTy, "tofp");
 	}
 	llvm::Value* im = MakeRealConstant(0.0);
 
-- 
2.43.0


From 378b6a4f96af7db605d5543666e1e29cc9967f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:13 +0000
Subject: [PATCH 06/93] fix: a set converted to another range keeps all its
 elements and has the target's size

---
 expr.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 2b39351..d3945ea 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -3942,9 +3942,9 @@ static llvm::Value* ConvertSet(ExprAST* expr, Types::TypeDecl* type)
     size_t       p = 0;
     llvm::Type*  intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
 
-    for (auto i = lrange->Start(); i < lrange->End(); i += Types::SetDecl::SetBits)
+    for (auto i = lrange->Start(); i <= lrange->End(); i += Types::SetDecl::SetBits)
     {
-	if (i >= (rrange->Start() & ~Types::SetDecl::SetMask) && i < rrange->End())
+	if (i + Types::SetDecl::SetBits > rrange->Start() && i <= rrange->End())
 	{
 	    if (i > rrange->Start())
 	    {
@@ -4026,7 +4026,7 @@ llvm::Value* TypeCastAST::CodeGen()
     // Sets are compatible anyway...
     if (llvm::isa<Types::SetDecl>(current))
     {
-	return builder.CreateLoad(current->LlvmType(), Address(), "set");
+	return builder.CreateLoad(type->LlvmType(), Address(), "set");
     }
 #if !NDEBUG
     dump();
-- 
2.43.0


From f81ee4bef2988e757b872b34ba585535a173e495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:13 +0000
Subject: [PATCH 07/93] fix: a constant set range stops at the last element of
 the set's type

---
 expr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.cpp b/expr.cpp
index d3945ea..18b3e96 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -3599,7 +3599,7 @@ llvm::Constant* SetExprAST::MakeConstantSetArray()
 	    int  low = le->Int() - start;
 	    int  high = he->Int() - start;
 	    low = std::max(0, low);
-	    high = std::min((int)type->GetRange()->Size(), high);
+	    high = std::min((int)type->GetRange()->Size() - 1, high);
 	    for (int i = low; i <= high; i++)
 	    {
 		elems[i >> Types::SetDecl::SetPow2Bits] |= (1 << (i & Types::SetDecl::SetMask));
-- 
2.43.0


From 026d63b719456b8ff8a19ea07b50f77b34847eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:13 +0000
Subject: [PATCH 08/93] fix: a set range whose low bound is above its high
 bound is empty

---
 expr.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 18b3e96..05201d9 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -3719,7 +3719,8 @@ llvm::Value* SetExprAST::Address()
 	    builder.CreateStore(low, loopVar);
 
 	    llvm::BasicBlock* loopBB = llvm::BasicBlock::Create(theContext, "loop", fn);
-	    builder.CreateBr(loopBB);
+	    llvm::BasicBlock* afterBB = llvm::BasicBlock::Create(theContext, "afterloop", fn);
+	    builder.CreateCondBr(builder.CreateICmpSLE(low, high, "nonempty"), loopBB, afterBB);
 	    builder.SetInsertPoint(loopBB);
 
 	    llvm::Value* loop = builder.CreateLoad(intTy, loopVar, "loopVar");
@@ -3747,7 +3748,6 @@ llvm::Value* SetExprAST::Address()
 
 	    llvm::Value* endCond = builder.CreateICmpSLE(loop, high, "loopcond");
 
-	    llvm::BasicBlock* afterBB = llvm::BasicBlock::Create(theContext, "afterloop", fn);
 	    builder.CreateCondBr(endCond, loopBB, afterBB);
 
 	    builder.SetInsertPoint(afterBB);
-- 
2.43.0


From 7aa57e2efa91bea31f27bfe90176e4eda3808580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:44 +0000
Subject: [PATCH 09/93] fix: bounds of a set range with an unsigned base type
 are zero extended

---
 expr.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 05201d9..7a237d3 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -3709,8 +3709,16 @@ llvm::Value* SetExprAST::Address()
 
 	    // Adjust for range:
 	    Types::Range* range = type->GetRange();
-	    low = builder.CreateSExt(low, intTy, "sext.low");
-	    high = builder.CreateSExt(high, intTy, "sext.high");
+	    if (IsUnsigned(r->Type()))
+	    {
+		low = builder.CreateZExt(low, intTy, "zext.low");
+		high = builder.CreateZExt(high, intTy, "zext.high");
+	    }
+	    else
+	    {
+		low = builder.CreateSExt(low, intTy, "sext.low");
+		high = builder.CreateSExt(high, intTy, "sext.high");
+	    }
 
 	    llvm::Value* rangeStart = MakeIntegerConstant(range->Start());
 	    low = builder.CreateSub(low, rangeStart);
-- 
2.43.0


From 6a60d7d81c6af61760ae78505eb2ad20f618df3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:52 +0000
Subject: [PATCH 10/93] fix: unary minus negates a complex value

---
 expr.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/expr.cpp b/expr.cpp
index 7a237d3..a74404f 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -1551,6 +1551,12 @@ llvm::Value* UnaryExprAST::CodeGen()
 	    return builder.CreateFNeg(r, "minus");
 	}
     }
+    if (llvm::isa<Types::ComplexDecl>(rhs->Type()) && oper.GetToken() == Token::Minus)
+    {
+	llvm::Value* re = builder.CreateFNeg(builder.CreateExtractValue(r, 0), "minusr");
+	llvm::Value* im = builder.CreateFNeg(builder.CreateExtractValue(r, 1), "minusi");
+	return builder.CreateInsertValue(builder.CreateInsertValue(r, re, 0), im, 1);
+    }
     return Error(this, "Unknown operation: " + oper.ToString());
 }
 
-- 
2.43.0


From 428cb63627dbd28a51d34509f701cfd062800688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:41 +0000
Subject: [PATCH 11/93] fix: arrays of different length or element type are not
 compatible

---
 types.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/types.cpp b/types.cpp
index 7d3c4c7..176065c 100644
--- a/types.cpp
+++ b/types.cpp
@@ -403,18 +403,19 @@ namespace Types
 	}
 	if (const auto aty = llvm::dyn_cast<ArrayDecl>(ty))
 	{
-	    if (aty->SubType() == SubType() && ranges.size() == aty->Ranges().size())
+	    if (*aty->SubType() == *SubType() && ranges.size() == aty->Ranges().size())
 	    {
 		for (size_t i = 0; i < ranges.size(); i++)
 		{
-		    if (ranges[i]->Size() != aty->Ranges()[i]->Size())
+		    if (ranges[i]->RangeSize() != aty->Ranges()[i]->RangeSize())
 		    {
 			return 0;
 		    }
 		}
+		return this;
 	    }
 	}
-	return this;
+	return 0;
     }
 
     TypeDecl* ArrayDecl::Clone() const
-- 
2.43.0


From e95d005f73c2611a317cb0e351b3345233eb96d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:30 +0000
Subject: [PATCH 12/93] fix: a value outside the range of a set is not a member
 of it

---
 expr.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/expr.cpp b/expr.cpp
index a74404f..818b190 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -921,6 +921,9 @@ llvm::Value* BinaryExprAST::SetCodeGen()
 	llvm::Type*      intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
 	l = builder.CreateZExt(l, Types::Get<Types::IntegerDecl>()->LlvmType(), "zext.l");
 	l = builder.CreateSub(l, MakeIntegerConstant(start));
+	// A value outside the range of the set is not a member of it.
+	llvm::Value* inRange = builder.CreateICmpULT(l, MakeIntegerConstant(type->GetRange()->Size()), "inrange");
+	l = builder.CreateSelect(inRange, l, MakeIntegerConstant(0));
 	llvm::Value* index;
 	if (llvm::dyn_cast<Types::SetDecl>(type)->SetWords() > 1)
 	{
@@ -935,7 +938,7 @@ llvm::Value* BinaryExprAST::SetCodeGen()
 
 	llvm::Value* bitset = builder.CreateLoad(intTy, bitsetAddr, "bitsetaddr");
 	llvm::Value* bit = builder.CreateLShr(bitset, offset);
-	return builder.CreateTrunc(bit, Types::Get<Types::BoolDecl>()->LlvmType());
+	return builder.CreateAnd(inRange, builder.CreateTrunc(bit, Types::Get<Types::BoolDecl>()->LlvmType()));
     }
 
     if (llvm::isa<SetExprAST>(lhs) || (lhs->Type() && llvm::isa<Types::SetDecl>(lhs->Type())))
-- 
2.43.0


From 679d78e9832142565564ef2e2077ed9c4810c41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:30 +0000
Subject: [PATCH 13/93] fix: < and > on sets are proper subset and superset

---
 expr.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 818b190..af79641 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -784,8 +784,15 @@ llvm::Value* BinaryExprAST::CallSetFunc(const std::string& name, Types::TypeDecl
 	return builder.CreateLoad(setTy, v, "set");
     }
 
-    llvm::FunctionCallee f = GetFunction(resTy->LlvmType(), { pty, pty, intTy }, "__Set" + name);
-    return builder.CreateCall(f, { lV, rV, setWords }, "calltmp");
+    llvm::FunctionCallee f = GetFunction(resTy->LlvmType(), { pty, pty, intTy },
+                                         name == "ProperSubset" ? "__SetContains" : "__Set" + name);
+    llvm::Value*         v = builder.CreateCall(f, { lV, rV, setWords }, "calltmp");
+    if (name == "ProperSubset")
+    {
+	// A subset which does not contain the other set.
+	v = builder.CreateAnd(v, builder.CreateNot(builder.CreateCall(f, { rV, lV, setWords }, "calltmp")));
+    }
+    return v;
 }
 
 llvm::Value* MakeStringFromExpr(ExprAST* e, Types::TypeDecl* ty)
@@ -979,16 +986,16 @@ llvm::Value* BinaryExprAST::SetCodeGen()
 	    return v;
 	}
 
-	case Token::GreaterThan:
-	    return builder.CreateNot(CallSetFunc("Contains", Types::Get<Types::BoolDecl>()));
-
 	case Token::LessThan:
+	    return CallSetFunc("ProperSubset", Types::Get<Types::BoolDecl>());
+
+	case Token::GreaterThan:
 	{
 	    // Swap left<->right sides
 	    ExprAST* tmp = rhs;
 	    rhs = lhs;
 	    lhs = tmp;
-	    llvm::Value* v = builder.CreateNot(CallSetFunc("Contains", Types::Get<Types::BoolDecl>()));
+	    llvm::Value* v = CallSetFunc("ProperSubset", Types::Get<Types::BoolDecl>());
 	    // Set it back
 	    lhs = rhs;
 	    rhs = tmp;
-- 
2.43.0


From 3befb1dbf6460759219dd4a2490da0c0d08588ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:46 +0000
Subject: [PATCH 14/93] fix: operators that cannot be applied to their operand
 types are diagnosed

---
 semantics.cpp | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/semantics.cpp b/semantics.cpp
index 5768110..0e64a76 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -242,6 +242,11 @@ Types::TypeDecl* TypeCheckVisitor::BinaryExprType(BinaryExprAST* b)
 
     if (llvm::isa<Types::SetDecl>(lty) && llvm::isa<Types::SetDecl>(rty))
     {
+	if (!b->oper.IsCompare() && op != Token::Plus && op != Token::Minus && op != Token::Multiply &&
+	    op != Token::SymDiff)
+	{
+	    Error(b, "Operator not allowed for sets");
+	}
 	ty = BinarySetUpdate(b);
 	if (b->oper.IsCompare())
 	{
@@ -252,16 +257,25 @@ Types::TypeDecl* TypeCheckVisitor::BinaryExprType(BinaryExprAST* b)
 
     if (b->oper.IsCompare())
     {
+	bool equality = op == Token::Equal || op == Token::NotEqual;
+	if ((llvm::isa<Types::ComplexDecl>(lty) || llvm::isa<Types::ComplexDecl>(rty)) && !equality)
+	{
+	    Error(b, "Only = and <> comparison allowed for complex types");
+	}
 	if (llvm::isa<Types::ComplexDecl>(lty) && llvm::isa<Types::ComplexDecl>(rty))
 	{
-	    if (b->oper.GetToken() != Token::Equal && b->oper.GetToken() != Token::NotEqual)
-	    {
-		Error(b, "Only = and <> comparison allowed for complex types");
-	    }
 	    return Types::Get<Types::BoolDecl>();
 	}
+	if (llvm::isa<Types::PointerDecl>(lty) && llvm::isa<Types::PointerDecl>(rty) && !equality)
+	{
+	    Error(b, "Only = and <> comparison allowed for pointer types");
+	}
 	if (llvm::isa<Types::StringDecl>(lty) || llvm::isa<Types::StringDecl>(rty))
 	{
+	    if (!Types::IsStringLike(lty) || !Types::IsStringLike(rty))
+	    {
+		Error(b, "Incompatible type in expression");
+	    }
 	    auto ty = Types::Get<Types::StringDecl>(255);
 	    b->rhs = Recast(b->rhs, ty);
 	    b->lhs = Recast(b->lhs, ty);
@@ -425,6 +439,18 @@ void TypeCheckVisitor::Check<BinaryExprAST>(BinaryExprAST* b)
 	    }
 	    break;
 
+	case Token::Shl:
+	case Token::Shr:
+	    if (!IsIntegral(lty) || !IsIntegral(rty))
+	    {
+		Error(b, "Types for SHL and SHR should be integer");
+	    }
+	    break;
+
+	case Token::SymDiff:
+	    Error(b, "Types for >< should be sets");
+	    break;
+
 	case Token::And:
 	case Token::Xor:
 	case Token::Or:
-- 
2.43.0


From 988e062ff86dca744a0a6e007b6f80ce85ab2472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:01 +0000
Subject: [PATCH 15/93] fix: char arrays can be concatenated with char values
 and converted to strings without overflow

---
 expr.cpp | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index af79641..f12b5a2 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -322,7 +322,7 @@ static llvm::Value* TempStringFromCharArray(llvm::Value* dest, AddressableAST* r
 	llvm::Value* src = builder.CreateGEP(charTy, v, { MakeIntegerConstant(0) }, "src");
 	llvm::Align  destAlign{ std::max(AlignOfType(chars->getType()), MIN_ALIGN) };
 	llvm::Align  srcAlign{ std::max(AlignOfType(v->getType()), MIN_ALIGN) };
-	return builder.CreateMemCpy(chars, destAlign, src, srcAlign, size + 1);
+	return builder.CreateMemCpy(chars, destAlign, src, srcAlign, size);
     };
 
     return FillTempString(dest, rhs->Address(), size, func);
@@ -824,7 +824,7 @@ llvm::Value* MakeStringFromExpr(ExprAST* e, Types::TypeDecl* ty)
 
 	ICE_IF(r.size() != 1, "Expect 1D array here");
 
-	llvm::Value* v = CreateTempAlloca(ty);
+	llvm::Value* v = CreateTempAlloca(Types::Get<Types::StringDecl>(r[0]->RangeSize()));
 	TempStringFromCharArray(v, ea, r[0]->RangeSize());
 	return v;
     }
@@ -1416,13 +1416,13 @@ llvm::Value* BinaryExprAST::CodeGen()
 
     ICE_IF(!lhs->Type() || !rhs->Type(), "Huh? Both sides of expression should have type");
 
-    if (BothStringish(lhs, rhs))
+    if (oper.GetToken() == Token::Plus && Types::IsStringLike(lhs->Type()) && Types::IsStringLike(rhs->Type()))
     {
-	if (oper.GetToken() == Token::Plus)
-	{
-	    return CallStrCat(lhs, rhs);
-	}
+	return CallStrCat(lhs, rhs);
+    }
 
+    if (BothStringish(lhs, rhs))
+    {
 	// We don't need to do this of both sides are char - then it's just a simple comparison
 	if (!llvm::isa<Types::CharDecl>(lhs->Type()) || !llvm::isa<Types::CharDecl>(rhs->Type()))
 	{
@@ -1434,10 +1434,6 @@ llvm::Value* BinaryExprAST::CodeGen()
     auto al = llvm::dyn_cast<Types::ArrayDecl>(lhs->Type());
     if (al && ar)
     {
-	if (oper.GetToken() == Token::Plus)
-	{
-	    return CallStrCat(lhs, rhs);
-	}
 	// Comparison operators are allowed for old style Pascal strings (char arrays)
 	// But only if they are the same size.
 	if (llvm::isa<Types::CharDecl>(al->SubType()) && llvm::isa<Types::CharDecl>(ar->SubType()))
-- 
2.43.0


From 1adb83bf3c655c9cdbbd412ac149c1074d77d04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:21 +0000
Subject: [PATCH 16/93] fix: assigning to a string keeps within its capacity

---
 expr.cpp         | 37 ++++++++++++++++++++++++++++++-------
 runtime/string.c |  6 +++---
 2 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index f12b5a2..0c67773 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -292,8 +292,16 @@ static llvm::Value* FillTempString(llvm::Value* dest, llvm::Value* rhs, size_t s
     return fn(rhs, destChars, size);
 }
 
-static llvm::Value* TempStringFromStringExpr(llvm::Value* dest, StringExprAST* rhs)
+static llvm::Value* TempStringFromStringExpr(llvm::Value* dest, StringExprAST* rhs, size_t capacity)
 {
+    if (rhs->Str().size() > capacity)
+    {
+	auto func = [](llvm::Value* v, llvm::Value* chars, size_t size)
+	{ return builder.CreateMemCpy(chars, llvm::Align(1), v, llvm::Align(1), size); };
+
+	return FillTempString(dest, rhs->CodeGen(), capacity, func);
+    }
+
     auto func = [](llvm::Value* v, llvm::Value* chars, size_t size)
     {
 	llvm::Align destAlign{ std::max(AlignOfType(chars->getType()), MIN_ALIGN) };
@@ -800,14 +808,14 @@ llvm::Value* MakeStringFromExpr(ExprAST* e, Types::TypeDecl* ty)
     TRACE();
     if (llvm::isa<Types::CharDecl>(e->Type()))
     {
-	llvm::Value* v = CreateTempAlloca(Types::Get<Types::StringDecl>(1));
+	llvm::Value* v = CreateTempAlloca(llvm::isa<Types::StringDecl>(ty) ? ty : Types::Get<Types::StringDecl>(1));
 	TempStringFromChar(v, e);
 	return v;
     }
     if (auto se = llvm::dyn_cast<StringExprAST>(e))
     {
 	llvm::Value* v = CreateTempAlloca(ty);
-	TempStringFromStringExpr(v, se);
+	TempStringFromStringExpr(v, se, llvm::cast<Types::StringDecl>(ty)->Capacity());
 	return v;
     }
 
@@ -824,8 +832,14 @@ llvm::Value* MakeStringFromExpr(ExprAST* e, Types::TypeDecl* ty)
 
 	ICE_IF(r.size() != 1, "Expect 1D array here");
 
-	llvm::Value* v = CreateTempAlloca(Types::Get<Types::StringDecl>(r[0]->RangeSize()));
-	TempStringFromCharArray(v, ea, r[0]->RangeSize());
+	size_t size = r[0]->RangeSize();
+	auto   st = llvm::dyn_cast<Types::StringDecl>(ty);
+	if (st)
+	{
+	    size = std::min<size_t>(size, st->Capacity());
+	}
+	llvm::Value* v = CreateTempAlloca(st ? st : Types::Get<Types::StringDecl>(size));
+	TempStringFromCharArray(v, ea, size);
 	return v;
     }
 
@@ -843,6 +857,14 @@ llvm::Value* CallStrFunc(const std::string& name, ExprAST* lhs, ExprAST* rhs, Ty
     return builder.CreateCall(f, { lV, rV }, twine);
 }
 
+static llvm::Value* CallStrAssign(llvm::Value* dest, llvm::Value* src, Types::StringDecl* ty)
+{
+    llvm::Type*          intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
+    llvm::FunctionCallee f = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(),
+                                         { dest->getType(), src->getType(), intTy }, "__StrAssign");
+    return builder.CreateCall(f, { dest, src, MakeIntegerConstant(ty->Capacity()) });
+}
+
 static llvm::Value* CallStrCat(ExprAST* lhs, ExprAST* rhs)
 {
     TRACE();
@@ -2282,11 +2304,12 @@ llvm::Value* AssignExprAST::AssignStr()
     if (auto srhs = llvm::dyn_cast<StringExprAST>(rhs))
     {
 	llvm::Value* dest = lhsv->Address();
-	return TempStringFromStringExpr(dest, srhs);
+	return TempStringFromStringExpr(dest, srhs, llvm::cast<Types::StringDecl>(lhsv->Type())->Capacity());
     }
 
     ICE_IF(!llvm::isa<Types::StringDecl>(rhs->Type()), "Expect string for rhs expression");
-    return CallStrFunc("Assign", lhs, rhs, Types::Get<Types::VoidDecl>(), "");
+    llvm::Value* src = MakeStringFromExpr(rhs, rhs->Type());
+    return CallStrAssign(lhsv->Address(), src, llvm::cast<Types::StringDecl>(lhsv->Type()));
 }
 
 llvm::Value* AssignExprAST::AssignSet()
diff --git a/runtime/string.c b/runtime/string.c
index b7002b8..e9e0655 100644
--- a/runtime/string.c
+++ b/runtime/string.c
@@ -21,10 +21,10 @@ void __StrConcat(String* res, String* a, String* b)
     memcpy(&res->str[a->len], b->str, blen);
 }
 
-/* Assign string b to string a. */
-void __StrAssign(String* a, String* b)
+/* Assign string b to string a, which has room for max characters. */
+void __StrAssign(String* a, String* b, int max)
 {
-    a->len = b->len;
+    a->len = b->len < max ? b->len : max;
     memcpy(a->str, b->str, a->len);
 }
 
-- 
2.43.0


From 96362934e4769f6a72f1c8e1cca32009470c89be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:51 +0000
Subject: [PATCH 17/93] fix: a string concatenation passed by value is passed
 as its value, not its address

---
 expr.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 0c67773..53ec848 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -1647,10 +1647,7 @@ static std::vector<llvm::Value*> CreateArgList(const std::vector<ExprAST*>& args
 			}
 			else
 			{
-			    v = CreateTempAlloca(i->Type());
-			    llvm::Value* x = i->CodeGen();
-			    ICE_IF(!x, "Expected CodeGen to work");
-			    builder.CreateStore(x, v);
+			    v = MakeAddressable(i);
 			}
 		    }
 		    else
-- 
2.43.0


From dee9c123e9c3b4e35a714a9e86ef12b9a155fccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:45 +0000
Subject: [PATCH 18/93] fix: a string passed by value is truncated to the
 parameter's capacity

---
 expr.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/expr.cpp b/expr.cpp
index 53ec848..00fcce3 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -1641,7 +1641,14 @@ static std::vector<llvm::Value*> CreateArgList(const std::vector<ExprAST*>& args
 		{
 		    if (IsCompound(i->Type()))
 		    {
-			if (vi)
+			auto sty = llvm::dyn_cast<Types::StringDecl>(vdef[index].Type());
+			if (sty && (llvm::isa<TypeCastAST>(i) || *sty != *i->Type()))
+			{
+			    // The argument may have more room, or less, than the parameter.
+			    v = CreateTempAlloca(sty);
+			    CallStrAssign(v, MakeAddressable(i), sty);
+			}
+			else if (vi)
 			{
 			    v = LoadOrMemcpy(vi->Address(), vi->Type());
 			}
-- 
2.43.0


From 900f180f1488fbfb280ef7aea9c6f72a5ec96afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:59 +0000
Subject: [PATCH 19/93] fix: temporary strings are sized by their own contents

---
 expr.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 00fcce3..f23f619 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -808,14 +808,19 @@ llvm::Value* MakeStringFromExpr(ExprAST* e, Types::TypeDecl* ty)
     TRACE();
     if (llvm::isa<Types::CharDecl>(e->Type()))
     {
-	llvm::Value* v = CreateTempAlloca(llvm::isa<Types::StringDecl>(ty) ? ty : Types::Get<Types::StringDecl>(1));
+	llvm::Value* v = CreateTempAlloca(llvm::isa<Types::StringDecl>(ty) ? ty : new Types::StringDecl(1));
 	TempStringFromChar(v, e);
 	return v;
     }
     if (auto se = llvm::dyn_cast<StringExprAST>(e))
     {
-	llvm::Value* v = CreateTempAlloca(ty);
-	TempStringFromStringExpr(v, se, llvm::cast<Types::StringDecl>(ty)->Capacity());
+	auto st = llvm::dyn_cast<Types::StringDecl>(ty);
+	if (!st)
+	{
+	    st = new Types::StringDecl(std::clamp<size_t>(se->Str().size(), 1, 255));
+	}
+	llvm::Value* v = CreateTempAlloca(st);
+	TempStringFromStringExpr(v, se, st->Capacity());
 	return v;
     }
 
@@ -832,13 +837,13 @@ llvm::Value* MakeStringFromExpr(ExprAST* e, Types::TypeDecl* ty)
 
 	ICE_IF(r.size() != 1, "Expect 1D array here");
 
-	size_t size = r[0]->RangeSize();
+	size_t size = std::min<size_t>(r[0]->RangeSize(), 255);
 	auto   st = llvm::dyn_cast<Types::StringDecl>(ty);
 	if (st)
 	{
 	    size = std::min<size_t>(size, st->Capacity());
 	}
-	llvm::Value* v = CreateTempAlloca(st ? st : Types::Get<Types::StringDecl>(size));
+	llvm::Value* v = CreateTempAlloca(st ? st : new Types::StringDecl(size));
 	TempStringFromCharArray(v, ea, size);
 	return v;
     }
-- 
2.43.0


From fdf2bdc6da95d77c9572b9097f030ec1513702db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:23 +0000
Subject: [PATCH 20/93] fix: mixed subrange operands and comparisons of
 records, arrays and files are diagnosed; char subranges work as strings

---
 expr.cpp      |  7 +++----
 semantics.cpp | 10 ++++++++--
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index f23f619..868a4e7 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -315,7 +315,7 @@ static llvm::Value* TempStringFromStringExpr(llvm::Value* dest, StringExprAST* r
 static llvm::Value* TempStringFromChar(llvm::Value* dest, ExprAST* rhs)
 {
     TRACE();
-    ICE_IF(!llvm::isa<Types::CharDecl>(rhs->Type()), "Expected char value");
+    ICE_IF(rhs->Type()->Type() != Types::TypeDecl::TK_Char, "Expected char value");
 
     auto func = [](llvm::Value* v, llvm::Value* chars, size_t size) { return builder.CreateStore(v, chars); };
     return FillTempString(dest, rhs->CodeGen(), 1, func);
@@ -806,7 +806,7 @@ llvm::Value* BinaryExprAST::CallSetFunc(const std::string& name, Types::TypeDecl
 llvm::Value* MakeStringFromExpr(ExprAST* e, Types::TypeDecl* ty)
 {
     TRACE();
-    if (llvm::isa<Types::CharDecl>(e->Type()))
+    if (e->Type()->Type() == Types::TypeDecl::TK_Char)
     {
 	llvm::Value* v = CreateTempAlloca(llvm::isa<Types::StringDecl>(ty) ? ty : new Types::StringDecl(1));
 	TempStringFromChar(v, e);
@@ -4061,8 +4061,7 @@ llvm::Value* TypeCastAST::CodeGen()
     {
 	return builder.CreateBitCast(expr->CodeGen(), type->LlvmType());
     }
-    if ((Types::IsCharArray(current) || llvm::isa<Types::CharDecl>(current)) &&
-        llvm::isa<Types::StringDecl>(type))
+    if (Types::IsStringLike(current) && llvm::isa<Types::StringDecl>(type))
     {
 	return MakeStringFromExpr(expr, type);
     }
diff --git a/semantics.cpp b/semantics.cpp
index 0e64a76..4514b82 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -270,6 +270,10 @@ Types::TypeDecl* TypeCheckVisitor::BinaryExprType(BinaryExprAST* b)
 	{
 	    Error(b, "Only = and <> comparison allowed for pointer types");
 	}
+	if ((IsCompound(lty) && !Types::IsStringLike(lty)) || llvm::isa<Types::FileDecl>(lty))
+	{
+	    Error(b, "Comparison not allowed for this type");
+	}
 	if (llvm::isa<Types::StringDecl>(lty) || llvm::isa<Types::StringDecl>(rty))
 	{
 	    if (!Types::IsStringLike(lty) || !Types::IsStringLike(rty))
@@ -391,12 +395,14 @@ Types::TypeDecl* TypeCheckVisitor::BinaryExprType(BinaryExprAST* b)
 	return rty;
     }
 
-    if (llvm::isa<Types::RangeDecl>(lty) && llvm::isa<IntegerExprAST>(b->rhs))
+    // The operands of the remaining operators must have values of the same kind.
+    bool sameKind = lty->Type() == rty->Type() && op != Token::SymDiff;
+    if (sameKind && llvm::isa<Types::RangeDecl>(lty) && llvm::isa<IntegerExprAST>(b->rhs))
     {
 	return lty;
     }
 
-    if (llvm::isa<Types::RangeDecl>(rty) && llvm::isa<IntegerExprAST>(b->lhs))
+    if (sameKind && llvm::isa<Types::RangeDecl>(rty) && llvm::isa<IntegerExprAST>(b->lhs))
     {
 	return rty;
     }
-- 
2.43.0


From 1a42b925fc83e68d6f9f5a4eded23d485b7de6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:33 +0000
Subject: [PATCH 21/93] fix: for loop bounds are converted to the type of the
 loop variable

---
 semantics.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/semantics.cpp b/semantics.cpp
index 4514b82..dc93b45 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -804,7 +804,7 @@ void TypeCheckVisitor::Check<ForExprAST>(ForExprAST* f)
     }
     if (f->end)
     {
-	if (const Types::TypeDecl* ty = f->start->Type()->AssignableType(vty))
+	if (const Types::TypeDecl* ty = vty->AssignableType(f->start->Type()))
 	{
 	    f->start = Recast(f->start, ty);
 	}
@@ -812,7 +812,7 @@ void TypeCheckVisitor::Check<ForExprAST>(ForExprAST* f)
 	{
 	    bad = true;
 	}
-	if (const Types::TypeDecl* ty = f->end->Type()->AssignableType(vty))
+	if (const Types::TypeDecl* ty = vty->AssignableType(f->end->Type()))
 	{
 	    f->end = Recast(f->end, ty);
 	}
-- 
2.43.0


From 7bc3c4b2a2495496d95ddd5c6600d8c571bc930f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:55 +0000
Subject: [PATCH 22/93] fix: the variable of a for-in loop must have the type
 of the elements

---
 semantics.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/semantics.cpp b/semantics.cpp
index dc93b45..8969993 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -826,7 +826,7 @@ void TypeCheckVisitor::Check<ForExprAST>(ForExprAST* f)
     {
 	if (auto setDecl = llvm::dyn_cast<Types::SetDecl>(f->start->Type()))
 	{
-	    if (!setDecl->SubType()->CompatibleType(vty))
+	    if (!setDecl->SubType()->CompatibleType(vty) || setDecl->SubType()->Type() != vty->Type())
 	    {
 		Error(f->variable, "Expected variable to be compatible with set");
 	    }
@@ -837,7 +837,8 @@ void TypeCheckVisitor::Check<ForExprAST>(ForExprAST* f)
 	    {
 		Error(f->start, "Expected signle dimension array");
 	    }
-	    if (!arrDecl->SubType()->CompatibleType(vty))
+	    Types::TypeDecl* ety = arrDecl->SubType();
+	    if (*ety != *vty && (!IsIntegral(ety) || ety->Type() != vty->Type() || !ety->CompatibleType(vty)))
 	    {
 		Error(f->variable, "Expected loop variable to be compatible with array");
 	    }
-- 
2.43.0


From fdd0310df6b80b339e581fc039efbba397f83c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:04 +0000
Subject: [PATCH 23/93] fix: a loop over a set does not read past the last word
 of the set

---
 expr.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 868a4e7..d73a1b6 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -2535,13 +2535,12 @@ llvm::Value* GenForInSet(ForExprAST* expr, Types::SetDecl* sd)
     llvm::PHINode* idxPhi = builder.CreatePHI(index->getType(), 2, "idxPhi");
     idxPhi->addIncoming(index, beforeBB);
     llvm::Type*  intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
-    llvm::Value* bitsetAddr = builder.CreateGEP(intTy, setV, idxPhi, "valueindex");
-    llvm::Value* bitset = builder.CreateLoad(intTy, bitsetAddr);
-
     llvm::Value* cmp = builder.CreateICmpSLT(idxPhi, words);
     builder.CreateCondBr(cmp, preLoopBB, afterBB);
 
     builder.SetInsertPoint(preLoopBB);
+    llvm::Value*         bitsetAddr = builder.CreateGEP(intTy, setV, idxPhi, "valueindex");
+    llvm::Value*         bitset = builder.CreateLoad(intTy, bitsetAddr);
     llvm::FunctionCallee cttz = GetFunction(intTy, { intTy, Types::Get<Types::BoolDecl>()->LlvmType() },
                                             "llvm.cttz.i32");
     llvm::Value*         isZero = builder.CreateICmpEQ(bitset, zero);
-- 
2.43.0


From ad87e3c4a582932e85283ba82922d551be3bd092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:14 +0000
Subject: [PATCH 24/93] fix: case label ranges are compared in the type of the
 selector

---
 expr.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index d73a1b6..298307f 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -3559,10 +3559,14 @@ llvm::Value* CaseExprAST::CodeGen()
 	    {
 		llvm::BasicBlock* next = llvm::BasicBlock::Create(theContext, "next", theFunction);
 		llvm::BasicBlock* maybe = llvm::BasicBlock::Create(theContext, "maybe", theFunction);
-		llvm::Value*      lt = builder.CreateICmpSLT(v, MakeIntegerConstant(val.first), "lt");
+		llvm::Value*      first = MakeConstant(val.first, expr->Type());
+		llvm::Value*      lt = IsUnsigned(expr->Type()) ? builder.CreateICmpULT(v, first, "lt")
+		                                                : builder.CreateICmpSLT(v, first, "lt");
 		builder.CreateCondBr(lt, next, maybe);
 		builder.SetInsertPoint(maybe);
-		llvm::Value* gt = builder.CreateICmpSGT(v, MakeIntegerConstant(val.second), "gt");
+		llvm::Value* last = MakeConstant(val.second, expr->Type());
+		llvm::Value* gt = IsUnsigned(expr->Type()) ? builder.CreateICmpUGT(v, last, "gt")
+		                                           : builder.CreateICmpSGT(v, last, "gt");
 		builder.CreateCondBr(gt, next, ll.second);
 		builder.SetInsertPoint(next);
 	    }
-- 
2.43.0


From b86a2277baf4054c226cec540fe4070329573d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:33 +0000
Subject: [PATCH 25/93] fix: overlapping case labels are diagnosed

---
 semantics.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/semantics.cpp b/semantics.cpp
index 8969993..e3f5cae 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -1019,9 +1019,12 @@ void TypeCheckVisitor::Check<CaseExprAST>(CaseExprAST* c)
     {
 	for (auto i : l->labelValues)
 	{
-	    if (std::find(vals.begin(), vals.end(), i) != vals.end())
+	    for (auto v : vals)
 	    {
-		Error(c, "Duplicate case label " + std::to_string(i.first));
+		if (i.first <= v.second && v.first <= i.second)
+		{
+		    Error(c, "Duplicate case label " + std::to_string(std::max(i.first, v.first)));
+		}
 	    }
 	    vals.push_back(i);
 	}
-- 
2.43.0


From 1893d5e35350f3ab88ddcf7bff4c9203df332f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:07 +0000
Subject: [PATCH 26/93] fix: case labels must be constants of the type of the
 case expression

---
 parser.cpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/parser.cpp b/parser.cpp
index a10a0bc..67aac30 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -3945,6 +3945,10 @@ ExprAST* Parser::ParseCaseExpr()
 	    }
 	    const Location loc = CurrentToken().Loc();
 	    otherwise = ParseStatement();
+	    if (!otherwise)
+	    {
+		return 0;
+	    }
 	    labels.push_back(new LabelExprAST(loc, {}, otherwise));
 	    if (!ExpectSemicolonOrEnd())
 	    {
@@ -3954,7 +3958,15 @@ ExprAST* Parser::ParseCaseExpr()
 	else
 	{
 	    const Constants::ConstDecl* cd = ParseConstExpr({ Token::Comma, Token::Colon, Token::DotDot });
-	    int                         value = Constants::ToInt(cd);
+	    if (!cd)
+	    {
+		return 0;
+	    }
+	    if (!expr->Type() || !expr->Type()->CompatibleType(cd->Type()))
+	    {
+		return Error("Case label does not match the type of the case expression");
+	    }
+	    int value = Constants::ToInt(cd);
 	    if (type)
 	    {
 		if (type != cd->Type())
@@ -3970,6 +3982,10 @@ ExprAST* Parser::ParseCaseExpr()
 	    if (AcceptToken(Token::DotDot))
 	    {
 		cd = ParseConstExpr({ Token::Comma, Token::Colon });
+		if (!cd)
+		{
+		    return 0;
+		}
 		if (type != cd->Type())
 		{
 		    return Error("Expected case labels to have same type");
@@ -3994,6 +4010,10 @@ ExprAST* Parser::ParseCaseExpr()
 	    NextToken();
 	    const Location locColon = CurrentToken().Loc();
 	    ExprAST*       s = ParseStatement();
+	    if (!s)
+	    {
+		return 0;
+	    }
 	    labels.push_back(new LabelExprAST(locColon, ranges, s));
 	    ranges.clear();
 	    if (!ExpectSemicolonOrEnd())
-- 
2.43.0


From 91407ca38bd1adb5d51f0fb6c505242283fa5f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:13 +0000
Subject: [PATCH 27/93] fix: a label that is placed twice or only jumped to is
 diagnosed

---
 namedobject.h | 13 +++++++++++++
 parser.cpp    | 29 +++++++++++++++++++++++++----
 2 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/namedobject.h b/namedobject.h
index 842e3f5..c36074a 100644
--- a/namedobject.h
+++ b/namedobject.h
@@ -199,7 +199,20 @@ class LabelDef : public NamedObject
 public:
     LabelDef(int label) : NamedObject(NK_Label, std::to_string(label), NULL){};
     void        dump() const override;
+    // Returns false if the label has already been placed.
+    bool Place() const
+    {
+	bool first = !placed;
+	placed = true;
+	return first;
+    }
+    void        Use() const { used = true; }
+    bool        IsMissing() const { return used && !placed; }
     static bool classof(const NamedObject* e) { return e->getKind() == NK_Label; }
+
+private:
+    mutable bool placed{ false };
+    mutable bool used{ false };
 };
 
 #endif
diff --git a/parser.cpp b/parser.cpp
index 67aac30..c1ca74b 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -107,6 +107,7 @@ public:
     ExprAST*      ParseStatement();
     VarDeclAST*   ParseVarDecls();
     BlockAST*     ParseBlock(Location& endLoc);
+    bool          CheckLabels();
     FunctionAST*  ParseDefinition(int level);
     PrototypeAST* ParsePrototype(NamePolicy nmPolicy);
     bool          ParseProgram(ParserType type);
@@ -543,7 +544,8 @@ ExprAST* Parser::ParseGoto()
     if (Expect(Token::Integer, ExpectConsume))
     {
 	int n = t.GetIntVal();
-	if (!nameStack.FindTopLevel(std::to_string(n)))
+	auto label = llvm::dyn_cast_or_null<LabelDef>(nameStack.FindTopLevel(std::to_string(n)));
+	if (!label)
 	{
 	    if (!nameStack.Find(std::to_string(n)))
 	    {
@@ -551,6 +553,7 @@ ExprAST* Parser::ParseGoto()
 	    }
 	    return Error(t, "Label and GOTO need to be declared in the same scope");
 	}
+	label->Use();
 	return new GotoAST(t.Loc(), n);
     }
     return 0;
@@ -3579,11 +3582,16 @@ BlockAST* Parser::ParseBlock(Location& endLoc)
 	    AcceptToken(Token::Integer);
 	    AcceptToken(Token::Colon);
 	    int n = token.GetIntVal();
-	    if (!nameStack.FindTopLevel(std::to_string(n)))
+	    auto label = llvm::dyn_cast_or_null<LabelDef>(nameStack.FindTopLevel(std::to_string(n)));
+	    if (!label)
 	    {
 		std::cerr << "Label=" << n << " at " << token.Loc() << std::endl;
 		return Error("Can't use label in a different scope than the declaration");
 	    }
+	    if (!label->Place())
+	    {
+		return Error(token, "Label is already used");
+	    }
 	    v.push_back(new LabelExprAST(token.Loc(), { { n, n } }, 0));
 	}
 	else if (ExprAST* ast = ParseStatement())
@@ -3603,6 +3611,19 @@ BlockAST* Parser::ParseBlock(Location& endLoc)
     return new BlockAST(loc, v);
 }
 
+bool Parser::CheckLabels()
+{
+    for (const auto& n : nameStack.GetLevel())
+    {
+	auto label = llvm::dyn_cast<LabelDef>(n.second);
+	if (label && label->IsMissing())
+	{
+	    return ErrorT(bool, "Label '" + n.first + "' is the target of a goto, but is not used");
+	}
+    }
+    return true;
+}
+
 FunctionAST* Parser::ParseDefinition(int level)
 {
     TRACE();
@@ -3751,7 +3772,7 @@ FunctionAST* Parser::ParseDefinition(int level)
 	    Location endLoc;
 	    ICE_IF(body, "Multiple body declarations for function?");
 
-	    if (!(body = ParseBlock(endLoc)) || !Expect(Token::Semicolon, ExpectConsume))
+	    if (!(body = ParseBlock(endLoc)) || !CheckLabels() || !Expect(Token::Semicolon, ExpectConsume))
 	    {
 		return 0;
 	    }
@@ -4678,7 +4699,7 @@ ExprAST* Parser::ParseUnit(ParserType type)
 	    const Location loc = CurrentToken().Loc();
 	    Location       endLoc;
 	    BlockAST*      body = ParseBlock(endLoc);
-	    if (!body)
+	    if (!body || !CheckLabels())
 	    {
 		return 0;
 	    }
-- 
2.43.0


From 7877a1f3c7a9485b710d9af88a3c66329e5f0baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:09 +0000
Subject: [PATCH 28/93] fix: read and write arguments that have no runtime
 routine are diagnosed

---
 expr.cpp      |  4 ++++
 semantics.cpp | 49 +++++++++++++++++++++++++------------------------
 2 files changed, 29 insertions(+), 24 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 298307f..4019121 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -3099,6 +3099,10 @@ llvm::Value* WriteAST::CodeGen()
 	    {
 		ICE_IF(arg.precision, "Expected no precision for types other than REAL");
 	    }
+	    if (auto rd = llvm::dyn_cast<Types::RangeBaseDecl>(type))
+	    {
+		type = rd->SubType();
+	    }
 	    if (auto* etype = llvm::dyn_cast<Types::EnumDecl>(type))
 	    {
 		llvm::Value* e2s = MakeEnumToString(etype);
diff --git a/semantics.cpp b/semantics.cpp
index e3f5cae..8369566 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -854,6 +854,27 @@ void TypeCheckVisitor::Check<ForExprAST>(ForExprAST* f)
     }
 }
 
+// Types that have a runtime function to read or write them as text.
+static bool IsReadable(const Types::TypeDecl* ty)
+{
+    if (auto rd = llvm::dyn_cast<Types::RangeBaseDecl>(ty))
+    {
+	ty = rd->SubType();
+    }
+    return llvm::isa<Types::CharDecl, Types::BoolDecl, Types::IntegerDecl, Types::Int64Decl, Types::RealDecl,
+                     Types::StringDecl>(ty) ||
+           Types::IsCharArray(ty);
+}
+
+static bool IsWritable(const Types::TypeDecl* ty)
+{
+    if (auto rd = llvm::dyn_cast<Types::RangeBaseDecl>(ty))
+    {
+	ty = rd->SubType();
+    }
+    return llvm::isa<Types::EnumDecl>(ty) || IsReadable(ty);
+}
+
 template<>
 void TypeCheckVisitor::Check<ReadAST>(ReadAST* r)
 {
@@ -886,17 +907,9 @@ void TypeCheckVisitor::Check<ReadAST>(ReadAST* r)
 	    {
 		Error(arg, "Invalid argument for Read/ReadLN - must be a variable-expression");
 	    }
-	    if (IsCompound(arg->Type()))
+	    else if (llvm::isa<StringExprAST>(arg) || !IsReadable(arg->Type()))
 	    {
-		bool bad = true;
-		if (llvm::isa<Types::ArrayDecl>(arg->Type()))
-		{
-		    bad = !Types::IsCharArray(arg->Type()) && !llvm::isa<Types::StringDecl>(arg->Type());
-		}
-		if (bad)
-		{
-		    Error(arg, "Read argument must be simple type [or array of char NYI] or string");
-		}
+		Error(arg, "Read argument must be a variable of simple type, array of char or string");
 	    }
 	}
     }
@@ -954,21 +967,9 @@ void TypeCheckVisitor::Check<WriteAST>(WriteAST* w)
 	for (auto arg : w->args)
 	{
 	    ExprAST* e = arg.expr;
-	    if (IsCompound(e->Type()))
+	    if (!IsWritable(e->Type()))
 	    {
-		bool bad = true;
-		if (IsCharArray(e->Type()))
-		{
-		    bad = false;
-		}
-		else
-		{
-		    bad = !llvm::isa<Types::StringDecl>(e->Type());
-		}
-		if (bad)
-		{
-		    Error(e, "Write argument must be simple type or array of char or string");
-		}
+		Error(e, "Write argument must be simple type or array of char or string");
 	    }
 	    else if (arg.precision)
 	    {
-- 
2.43.0


From 68c8fff94ee73dd67386cfdb64b09f3fe570c3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:15 +0000
Subject: [PATCH 29/93] fix: elements written to a typed file have the size of
 the element type

---
 expr.cpp      | 15 +++++++++++++++
 semantics.cpp | 25 ++++++++++++++++---------
 2 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 4019121..de898c1 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -4126,11 +4126,26 @@ llvm::Value* TypeCastAST::Address()
     if (llvm::isa<Types::StringDecl>(current))
     {
 	v = MakeAddressable(expr);
+	auto sty = llvm::dyn_cast<Types::StringDecl>(type);
+	if (sty && sty->Capacity() < llvm::cast<Types::StringDecl>(current)->Capacity())
+	{
+	    llvm::Value* dest = CreateTempAlloca(type);
+	    CallStrAssign(dest, v, sty);
+	    return dest;
+	}
     }
     else if (llvm::isa<Types::SetDecl>(current))
     {
 	v = ConvertSet(expr, type);
     }
+    else if (llvm::isa<Types::RealDecl>(type) || (IsIntegral(type) && type->Size() != current->Size()))
+    {
+	// A converted value needs storage of its own.
+	llvm::Value* value = CodeGen();
+	v = CreateTempAlloca(type);
+	builder.CreateStore(value, v);
+	return v;
+    }
     else
     {
 	if (llvm::isa<Types::StringDecl>(type))
diff --git a/semantics.cpp b/semantics.cpp
index 8369566..12c0ff2 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -854,13 +854,19 @@ void TypeCheckVisitor::Check<ForExprAST>(ForExprAST* f)
     }
 }
 
-// Types that have a runtime function to read or write them as text.
-static bool IsReadable(const Types::TypeDecl* ty)
+static const Types::TypeDecl* BaseType(const Types::TypeDecl* ty)
 {
     if (auto rd = llvm::dyn_cast<Types::RangeBaseDecl>(ty))
     {
-	ty = rd->SubType();
+	return rd->SubType();
     }
+    return ty;
+}
+
+// Types that have a runtime function to read or write them as text.
+static bool IsReadable(const Types::TypeDecl* ty)
+{
+    ty = BaseType(ty);
     return llvm::isa<Types::CharDecl, Types::BoolDecl, Types::IntegerDecl, Types::Int64Decl, Types::RealDecl,
                      Types::StringDecl>(ty) ||
            Types::IsCharArray(ty);
@@ -868,11 +874,7 @@ static bool IsReadable(const Types::TypeDecl* ty)
 
 static bool IsWritable(const Types::TypeDecl* ty)
 {
-    if (auto rd = llvm::dyn_cast<Types::RangeBaseDecl>(ty))
-    {
-	ty = rd->SubType();
-    }
-    return llvm::isa<Types::EnumDecl>(ty) || IsReadable(ty);
+    return llvm::isa<Types::EnumDecl>(BaseType(ty)) || IsReadable(ty);
 }
 
 template<>
@@ -929,7 +931,7 @@ void TypeCheckVisitor::Check<ReadAST>(ReadAST* r)
 	    else
 	    {
 		auto fd = llvm::dyn_cast<Types::FileDecl>(r->src->Type());
-		if (!fd || !fd->SubType()->AssignableType(arg->Type()))
+		if (!fd || !BaseType(fd->SubType())->SameAs(BaseType(arg->Type())))
 		{
 		    Error(arg, "Read argument should match elements of the file");
 		}
@@ -1002,6 +1004,11 @@ void TypeCheckVisitor::Check<WriteAST>(WriteAST* w)
 	    {
 		Error(arg, "Write argument should match elements of the file");
 	    }
+	    else
+	    {
+		// The file stores whole elements.
+		w->args[0].expr = Recast(arg, fd->SubType());
+	    }
 	}
     }
 }
-- 
2.43.0


From e01838655643667619321745b1483dd17a2b9d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:03 +0000
Subject: [PATCH 30/93] fix: read and write never store beyond the string,
 array or boolean they are given

---
 expr.cpp        | 27 ++++++++++++++++++++++++++-
 runtime/read.c  | 31 +++++++++++++++++--------------
 runtime/write.c |  5 +++++
 3 files changed, 48 insertions(+), 15 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index de898c1..0ce61e1 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -3009,13 +3009,16 @@ llvm::Value* WriteAST::CodeGen()
     llvm::Type*  voidPtrTy = Types::GetVoidPtrType();
     bool         isText = kind == WriteKind::WriteStr || llvm::isa<Types::TextDecl>(dest->Type());
     llvm::Type*  dstTy = dst->getType();
+    llvm::Value* result = dst;
     if (kind == WriteKind::WriteStr)
     {
+	// The runtime writes to a string of maximum length, the result is cut to fit.
+	dst = CreateTempAlloca(Types::Get<Types::StringDecl>(255));
 	llvm::FunctionCallee fc = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(), { dstTy },
 	                                      "__write_S_init");
 	v = builder.CreateCall(fc, { dst });
     }
-    if (kind != WriteKind::WriteLn && args.empty())
+    if (kind == WriteKind::Write && args.empty())
     {
 	return NoOpValue();
     }
@@ -3123,6 +3126,10 @@ llvm::Value* WriteAST::CodeGen()
 	                                      "__write_nl");
 	v = builder.CreateCall(fc, dst);
     }
+    if (kind == WriteKind::WriteStr)
+    {
+	v = CallStrAssign(result, dst, llvm::cast<Types::StringDecl>(dest->Type()));
+    }
     return v;
 }
 
@@ -3192,6 +3199,7 @@ static llvm::FunctionCallee CreateReadFunc(Types::TypeDecl* ty, llvm::Type* fty,
     }
     else if (IsCharArray(ty))
     {
+	argTypes.push_back(Types::Get<Types::IntegerDecl>()->LlvmType());
 	suffix = "chars";
     }
     else
@@ -3241,9 +3249,16 @@ llvm::Value* ReadAST::CodeGen()
 	ICE_IF(!v, "Could not evaluate address of expression for read");
 
 	llvm::FunctionCallee fn;
+	llvm::Value*         dest = v;
+	auto                 sty = llvm::dyn_cast<Types::StringDecl>(ty);
 	if (isText)
 	{
 	    fn = CreateReadFunc(ty, srcTy, kind);
+	    if (sty)
+	    {
+		// The runtime reads a string of maximum length, it is cut to fit.
+		v = CreateTempAlloca(Types::Get<Types::StringDecl>(255));
+	    }
 	}
 	else
 	{
@@ -3252,9 +3267,19 @@ llvm::Value* ReadAST::CodeGen()
 	}
 
 	argsV.push_back(v);
+	if (isText && !sty && Types::IsCharArray(ty))
+	{
+	    auto slice = llvm::dyn_cast<ArraySliceAST>(arg);
+	    argsV.push_back(slice ? slice->Size() : MakeIntegerConstant(ty->Size()));
+	}
 
 	ICE_IF(!fn, "Failed to generate function");
+	llvm::Value* temp = v;
 	v = builder.CreateCall(fn, argsV, "");
+	if (isText && sty)
+	{
+	    v = CallStrAssign(dest, temp, sty);
+	}
     }
     if (kind == ReadKind::ReadLn)
     {
diff --git a/runtime/read.c b/runtime/read.c
index 1853b4a..7c34fd3 100644
--- a/runtime/read.c
+++ b/runtime/read.c
@@ -138,17 +138,20 @@ static void initFile(File* file, struct interface* intf)
 
 static int str_current(struct interface* intf)
 {
+    if (intf->strpos == intf->str->len)
+    {
+	return '\n';
+    }
     return intf->str->str[intf->strpos];
 }
 
 static int str_get_text(struct interface* intf)
 {
-    if (intf->strpos == intf->str->len)
+    if (intf->strpos < intf->str->len)
     {
-	return EOF;
+	intf->strpos++;
     }
-    intf->strpos++;
-    return str_current(intf);
+    return intf->strpos < intf->str->len;
 }
 
 static int str_eof(struct interface* intf)
@@ -464,7 +467,7 @@ void __read_nl(File* file)
 
 static void readstr(struct interface* intf, String* v)
 {
-    char   buffer[256];
+    char   buffer[MaxStringLen];
     size_t count = 0;
 
     intf->fnpreread(intf);
@@ -502,10 +505,10 @@ void __read_S_str(String* str, String* v)
     readstr(intf, v);
 }
 
-static void readchars(struct interface* intf, char* v)
+static void readchars(struct interface* intf, char* v, int size)
 {
     intf->fnpreread(intf);
-    while (intf->fncurrent(intf) != '\n')
+    while (size-- > 0 && !intf->fneoln(intf))
     {
 	*v++ = intf->fncurrent(intf);
 	if (!intf->fngetnext(intf))
@@ -515,7 +518,7 @@ static void readchars(struct interface* intf, char* v)
     }
 }
 
-void __read_chars(File* file, char* v)
+void __read_chars(File* file, char* v, int size)
 {
     if (file->handle >= MaxPascalFiles)
     {
@@ -524,15 +527,15 @@ void __read_chars(File* file, char* v)
     struct interface intf;
     initFile(file, &intf);
 
-    readchars(&intf, v);
+    readchars(&intf, v, size);
 }
 
-void __read_S_chars(String* str, char* v)
+void __read_S_chars(String* str, char* v, int size)
 {
     struct interface* intf = findInterface(str);
     assert(intf && "Expected to find an interface");
 
-    readchars(intf, v);
+    readchars(intf, v, size);
 }
 
 static void upstr(char* s)
@@ -545,7 +548,7 @@ static void upstr(char* s)
     }
 }
 
-static void readbool(struct interface* intf, int* b)
+static void readbool(struct interface* intf, char* b)
 {
     intf->fnpreread(intf);
     skip_spaces(intf);
@@ -577,7 +580,7 @@ static void readbool(struct interface* intf, int* b)
     *b = -1;
 }
 
-void __read_bool(File* file, int* b)
+void __read_bool(File* file, char* b)
 {
     if (file->handle >= MaxPascalFiles)
     {
@@ -589,7 +592,7 @@ void __read_bool(File* file, int* b)
     readbool(&intf, b);
 }
 
-void __read_S_bool(String* str, int* b)
+void __read_S_bool(String* str, char* b)
 {
     struct interface* intf = findInterface(str);
     assert(intf && "Expected to find an interface");
diff --git a/runtime/write.c b/runtime/write.c
index abedf88..c9a3e9f 100644
--- a/runtime/write.c
+++ b/runtime/write.c
@@ -17,6 +17,11 @@ void __write_S_init(String* str)
 
 static void SetStrResult(String* str, int n, const char* buffer)
 {
+    // n is the length before the buffer or the string was full.
+    if (n > MaxStringLen - str->len)
+    {
+	n = MaxStringLen - str->len;
+    }
     memcpy(&str->str[str->len], buffer, n);
     str->len += n;
 }
-- 
2.43.0


From 4865c20f7ee1d10a046b0a2acc236cabc816cfba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:18 +0000
Subject: [PATCH 31/93] fix: invalid enumeration values and unset boolean bits
 are written as documented

---
 runtime/write.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/runtime/write.c b/runtime/write.c
index c9a3e9f..86c0c93 100644
--- a/runtime/write.c
+++ b/runtime/write.c
@@ -63,10 +63,7 @@ void __write_S_real(String* str, double v, int width, int precision)
 	{
 	    width = 13;
 	}
-	if (precision == 0)
-	{
-	    precision = (width > 8) ? width - 7 : 1;
-	}
+	precision = (width > 8) ? width - 7 : 1;
     }
 
     int n = snprintf(buffer, sizeof(buffer), (scientific) ? "% *.*E" : "%*.*f", width, precision, v);
@@ -116,7 +113,7 @@ void __write_S_bool(String* str, int v, int width)
     const char* vstr = (v & 1) ? "TRUE" : "FALSE";
     if (width <= 0)
     {
-	width = (v) ? 4 : 5;
+	width = (v & 1) ? 4 : 5;
     }
     int n = snprintf(buffer, sizeof(buffer), "%*s", width, vstr);
     SetStrResult(str, n, buffer);
@@ -128,7 +125,7 @@ void __write_bool(File* file, int v, int width)
     const char* vstr = (v & 1) ? "TRUE" : "FALSE";
     if (width <= 0)
     {
-	width = (v) ? 4 : 5;
+	width = (v & 1) ? 4 : 5;
     }
     fprintf(f, "%*s", width, vstr);
 }
@@ -205,7 +202,7 @@ void __write_str(File* file, const String* v, int width)
 
 void __write_S_enum(String* strout, int en, int width, struct EnumToString* e2s)
 {
-    if (en < 0 || en > e2s->nelem)
+    if (en < 0 || en >= e2s->nelem)
     {
 	static const char* msg = "Invalid Enum Value";
 	__write_S_chars(strout, msg, strlen(msg), width);
@@ -222,7 +219,7 @@ void __write_S_enum(String* strout, int en, int width, struct EnumToString* e2s)
 void __write_enum(File* file, int en, int width, struct EnumToString* e2s)
 {
     static const char* msg = "Invalid Enum Value";
-    if (en < 0 || en > e2s->nelem)
+    if (en < 0 || en >= e2s->nelem)
     {
 	__write_chars(file, msg, strlen(msg), width);
     }
-- 
2.43.0


From 6d0053187e94564ccdda33d46a7f7db4e1c71e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:33 +0000
Subject: [PATCH 32/93] fix: a builtin function without its argument or with a
 complex value that is not a variable does not crash the compiler

---
 builtin.cpp | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/builtin.cpp b/builtin.cpp
index 8ccfdb7..fc21bba 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -74,7 +74,11 @@ namespace Builtin
     {
     public:
 	using FunctionBase::FunctionBase;
-	Types::TypeDecl* Type() const override { return args[0]->Type(); }
+	Types::TypeDecl* Type() const override
+	{
+	    // Wrong number of arguments is diagnosed by Semantics().
+	    return args.empty() ? Types::Get<Types::VoidDecl>() : args[0]->Type();
+	}
 	ErrorType        Semantics() override;
     };
 
@@ -82,7 +86,11 @@ namespace Builtin
     {
     public:
 	using FunctionBase::FunctionBase;
-	Types::TypeDecl* Type() const override { return args[0]->Type(); }
+	Types::TypeDecl* Type() const override
+	{
+	    // Wrong number of arguments is diagnosed by Semantics().
+	    return args.empty() ? Types::Get<Types::VoidDecl>() : args[0]->Type();
+	}
 	ErrorType        Semantics() override;
     };
 
@@ -552,11 +560,11 @@ namespace Builtin
     /* Note that abs returnes "real" for complex, otherwise int or real depending on input type */
     Types::TypeDecl* FunctionAbs::Type() const
     {
-	if (llvm::isa<Types::ComplexDecl>(args[0]->Type()))
+	if (!args.empty() && llvm::isa<Types::ComplexDecl>(args[0]->Type()))
 	{
 	    return Types::Get<Types::RealDecl>();
 	}
-	return args[0]->Type();
+	return FunctionSameAsArg::Type();
     }
 
     llvm::Value* FunctionAbs::CodeGen(llvm::IRBuilder<>& builder)
@@ -565,8 +573,7 @@ namespace Builtin
 	{
 	    llvm::Constant* zero = MakeIntegerConstant(0);
 	    llvm::Constant* one = MakeIntegerConstant(1);
-	    auto            v = llvm::dyn_cast<AddressableAST>(args[0]);
-	    llvm::Value*    a = v->Address();
+	    llvm::Value*    a = MakeAddressable(args[0]);
 	    llvm::Type*     ty = Types::Get<Types::RealDecl>()->LlvmType();
 
 	    llvm::Value* re = builder.CreateLoad(ty, builder.CreateGEP(ty, a, zero, "re"));
@@ -620,8 +627,7 @@ namespace Builtin
 	{
 	    llvm::Constant* zero = MakeIntegerConstant(0);
 	    llvm::Constant* one = MakeIntegerConstant(1);
-	    auto            v = llvm::dyn_cast<AddressableAST>(args[0]);
-	    llvm::Value*    a = v->Address();
+	    llvm::Value*    a = MakeAddressable(args[0]);
 	    llvm::Type*     ty = Types::Get<Types::RealDecl>()->LlvmType();
 	    llvm::Type*     cplxTy = Types::Get<Types::ComplexDecl>()->LlvmType();
 
@@ -656,7 +662,7 @@ namespace Builtin
 
     Types::TypeDecl* FunctionFloat::Type() const
     {
-	if (llvm::isa<Types::ComplexDecl>(args[0]->Type()))
+	if (!args.empty() && llvm::isa<Types::ComplexDecl>(args[0]->Type()))
 	{
 	    return Types::Get<Types::ComplexDecl>();
 	}
@@ -1809,8 +1815,7 @@ namespace Builtin
 
     llvm::Value* FunctionReIm::CodeGen(llvm::IRBuilder<>& builder)
     {
-	auto         cmplx = llvm::dyn_cast<AddressableAST>(args[0]);
-	llvm::Value* caddr = cmplx->Address();
+	llvm::Value* caddr = MakeAddressable(args[0]);
 	llvm::Type*  realTy = Types::Get<Types::RealDecl>()->LlvmType();
 
 	return builder.CreateLoad(realTy,
-- 
2.43.0


From 75c1db39c63e4e9465ae3cf8e88e6af702f8ace2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:56 +0000
Subject: [PATCH 33/93] fix: integer arguments of builtin functions are checked
 and passed as the integer type the function takes

---
 builtin.cpp | 85 ++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 54 insertions(+), 31 deletions(-)

diff --git a/builtin.cpp b/builtin.cpp
index fc21bba..c2eb339 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -8,12 +8,32 @@ extern llvm::Module* theModule;
 
 namespace Builtin
 {
+    static const Types::TypeDecl* BaseType(const Types::TypeDecl* ty)
+    {
+	if (auto rd = llvm::dyn_cast<Types::RangeBaseDecl>(ty))
+	{
+	    return rd->SubType();
+	}
+	return ty;
+    }
+
+    static bool IsInteger(const Types::TypeDecl* ty)
+    {
+	return llvm::isa<Types::IntegerDecl, Types::Int64Decl>(BaseType(ty));
+    }
+
+    // The value of an integral argument, as the integer type that the function works on.
+    static llvm::Value* IntegerArg(llvm::IRBuilder<>& builder, ExprAST* arg, llvm::Type* ty)
+    {
+	return builder.CreateIntCast(arg->CodeGen(), ty, !IsUnsigned(BaseType(arg->Type())));
+    }
+
     static bool CastIntegerToReal(ExprAST*& arg)
     {
 	if (!llvm::isa<Types::RealDecl>(arg->Type()))
 	{
 	    // Implicit typecast.
-	    if (!IsIntegral(arg->Type()))
+	    if (!IsInteger(arg->Type()))
 	    {
 		return false;
 	    }
@@ -594,7 +614,7 @@ namespace Builtin
 	if (IsIntegral(args[0]->Type()))
 	{
 	    llvm::Value* neg = builder.CreateNeg(a, "neg");
-	    llvm::Value* cmp = builder.CreateICmpSGE(a, MakeIntegerConstant(0), "abscond");
+	    llvm::Value* cmp = builder.CreateICmpSGE(a, MakeConstant(0, args[0]->Type()), "abscond");
 	    llvm::Value* res = builder.CreateSelect(cmp, a, neg, "abs");
 	    return res;
 	}
@@ -604,7 +624,6 @@ namespace Builtin
     llvm::Value* FunctionOdd::CodeGen(llvm::IRBuilder<>& builder)
     {
 	llvm::Value* v = args[0]->CodeGen();
-	v = builder.CreateAnd(v, MakeIntegerConstant(1));
 	return builder.CreateTrunc(v, Types::Get<Types::BoolDecl>()->LlvmType(), "odd");
     }
 
@@ -614,7 +633,7 @@ namespace Builtin
 	{
 	    return ErrorType::WrongArgCount;
 	}
-	if (!IsIntegral(args[0]->Type()) || llvm::isa<Types::CharDecl>(args[0]->Type()))
+	if (!IsInteger(args[0]->Type()))
 	{
 	    return ErrorType::WrongArgType;
 	}
@@ -748,7 +767,7 @@ namespace Builtin
 	{
 	    return ErrorType::WrongArgCount;
 	}
-	if (args.size() == 1 && !IsIntegral(args[0]->Type()))
+	if (args.size() == 1 && !IsInteger(args[0]->Type()))
 	{
 	    return ErrorType::WrongArgType;
 	}
@@ -771,9 +790,9 @@ namespace Builtin
 	if (args.size() == 1)
 	{
 	    llvm::Type*          ty = Types::Get<Types::Int64Decl>()->LlvmType();
-	    llvm::Value*         v = Recast(args[0], Types::Get<Types::Int64Decl>())->CodeGen();
-	    llvm::FunctionCallee f = GetFunction(resTy, { ty }, "__random_int");
-	    return builder.CreateCall(f, { v }, "ranint");
+	    llvm::Value*         v = IntegerArg(builder, args[0], ty);
+	    llvm::FunctionCallee f = GetFunction(ty, { ty }, "__random_int");
+	    return builder.CreateTrunc(builder.CreateCall(f, { v }, "ranint"), resTy);
 	}
 	ICE_IF(args.size(), "Expected no arguments here");
 	llvm::FunctionCallee f = GetFunction(resTy, {}, "__random");
@@ -786,7 +805,7 @@ namespace Builtin
 	{
 	    return ErrorType::WrongArgCount;
 	}
-	if (args.size() == 1 && !IsIntegral(args[0]->Type()))
+	if (args.size() == 1 && !IsInteger(args[0]->Type()))
 	{
 	    return ErrorType::WrongArgType;
 	}
@@ -797,7 +816,7 @@ namespace Builtin
     {
 	if (args.size() == 1)
 	{
-	    llvm::Value*         v = Recast(args[0], Types::Get<Types::Int64Decl>())->CodeGen();
+	    llvm::Value*         v = IntegerArg(builder, args[0], Types::Get<Types::Int64Decl>()->LlvmType());
 	    llvm::FunctionCallee f = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(),
 	                                         { Types::Get<Types::Int64Decl>()->LlvmType() },
 	                                         "__random_set_seed");
@@ -820,7 +839,7 @@ namespace Builtin
 	{
 	    return ErrorType::WrongArgCount;
 	}
-	if (!IsIntegral(args[0]->Type()) || llvm::isa<Types::CharDecl>(args[0]->Type()))
+	if (!IsInteger(args[0]->Type()))
 	{
 	    return ErrorType::WrongArgType;
 	}
@@ -839,7 +858,7 @@ namespace Builtin
 	{
 	    return ErrorType::WrongArgCount;
 	}
-	if (!IsIntegral(args[0]->Type()))
+	if (!IsIntegral(args[0]->Type()) || llvm::isa<Types::Int64Decl>(BaseType(args[0]->Type())))
 	{
 	    return ErrorType::WrongArgType;
 	}
@@ -849,7 +868,8 @@ namespace Builtin
     llvm::Value* FunctionSucc::CodeGen(llvm::IRBuilder<>& builder)
     {
 	llvm::Value* a = args[0]->CodeGen();
-	llvm::Value* b = (args.size() == 2) ? args[1]->CodeGen() : MakeConstant(1, args[0]->Type());
+	llvm::Value* b = (args.size() == 2) ? IntegerArg(builder, args[1], a->getType())
+	                                    : MakeConstant(1, args[0]->Type());
 
 	return builder.CreateAdd(a, b, "succ");
     }
@@ -874,7 +894,8 @@ namespace Builtin
     llvm::Value* FunctionPred::CodeGen(llvm::IRBuilder<>& builder)
     {
 	llvm::Value* a = args[0]->CodeGen();
-	llvm::Value* b = (args.size() == 2) ? args[1]->CodeGen() : MakeConstant(1, args[0]->Type());
+	llvm::Value* b = (args.size() == 2) ? IntegerArg(builder, args[1], a->getType())
+	                                    : MakeConstant(1, args[0]->Type());
 
 	return builder.CreateSub(a, b, "pred");
     }
@@ -939,7 +960,7 @@ namespace Builtin
 	{
 	    return ErrorType::WrongArgCount;
 	}
-	if (args.size() == 1 && (!IsIntegral(args[0]->Type()) || llvm::isa<Types::CharDecl>(args[0]->Type())))
+	if (args.size() == 1 && !IsInteger(args[0]->Type()))
 	{
 	    return ErrorType::WrongArgType;
 	}
@@ -951,7 +972,7 @@ namespace Builtin
 	llvm::Value* v = MakeIntegerConstant(0);
 	if (args.size() == 1)
 	{
-	    v = args[0]->CodeGen();
+	    v = IntegerArg(builder, args[0], v->getType());
 	}
 
 	llvm::FunctionCallee f = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(),
@@ -1266,7 +1287,8 @@ namespace Builtin
     llvm::Value* FunctionCopy::CodeGen(llvm::IRBuilder<>& builder)
     {
 	llvm::Value* str = MakeStringFromExpr(args[0], args[0]->Type());
-	llvm::Value* start = args[1]->CodeGen();
+	llvm::Type*  intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
+	llvm::Value* start = IntegerArg(builder, args[1], intTy);
 
 	llvm::Value* len;
 	if (args.size() == 2)
@@ -1275,8 +1297,7 @@ namespace Builtin
 	}
 	else
 	{
-	    len = args[2]->CodeGen();
-	    ;
+	    len = IntegerArg(builder, args[2], intTy);
 	}
 
 	std::vector<llvm::Type*> argTypes = { str->getType(), start->getType(), len->getType() };
@@ -1292,11 +1313,11 @@ namespace Builtin
 	{
 	    return ErrorType::WrongArgCount;
 	}
-	if (!IsStringLike(args[0]->Type()) || !IsIntegral(args[1]->Type()))
+	if (!IsStringLike(args[0]->Type()) || !IsInteger(args[1]->Type()))
 	{
 	    return ErrorType::WrongArgType;
 	}
-	if (args.size() == 3 && !IsIntegral(args[2]->Type()))
+	if (args.size() == 3 && !IsInteger(args[2]->Type()))
 	{
 	    return ErrorType::WrongArgType;
 	}
@@ -1394,17 +1415,17 @@ namespace Builtin
     llvm::Value* FunctionPopcnt::CodeGen(llvm::IRBuilder<>& builder)
     {
 	Types::TypeDecl* type = args[0]->Type();
+	llvm::Type*      intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
 	std::string      name = "llvm.ctpop.i";
 	if (IsIntegral(type))
 	{
-	    name += std::to_string(type->Size() * 8);
 	    llvm::Type*          ty = type->LlvmType();
+	    name += std::to_string(ty->getIntegerBitWidth());
 	    llvm::FunctionCallee f = GetFunction(ty, { ty }, name);
 	    llvm::Value*         a = args[0]->CodeGen();
-	    return builder.CreateCall(f, a, "popcnt");
+	    return builder.CreateIntCast(builder.CreateCall(f, a, "popcnt"), intTy, false);
 	}
 
-	llvm::Type* intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
 	name += std::to_string(Types::SetDecl::SetBits);
 	llvm::Value*         v = MakeAddressable(args[0]);
 	llvm::Value*         addr = builder.CreateGEP(intTy, v, MakeIntegerConstant(0), "leftSet");
@@ -1470,7 +1491,7 @@ namespace Builtin
 
     llvm::Value* FunctionParamstr::CodeGen(llvm::IRBuilder<>& builder)
     {
-	llvm::Value* n = args[0]->CodeGen();
+	llvm::Value* n = IntegerArg(builder, args[0], Types::Get<Types::IntegerDecl>()->LlvmType());
 
 	std::vector<llvm::Type*> argTypes = { n->getType() };
 
@@ -1486,7 +1507,7 @@ namespace Builtin
 	{
 	    return ErrorType::WrongArgCount;
 	}
-	if (!IsIntegral(args[0]->Type()))
+	if (!IsInteger(args[0]->Type()))
 	{
 	    return ErrorType::WrongArgType;
 	}
@@ -1558,7 +1579,7 @@ namespace Builtin
 	{
 	    return ErrorType::WrongArgCount;
 	}
-	if (!Types::IsNumeric(args[0]->Type()))
+	if (!Types::IsNumeric(args[0]->Type()) || llvm::isa<Types::ComplexDecl>(args[0]->Type()))
 	{
 	    return ErrorType::WrongArgType;
 	}
@@ -1584,8 +1605,9 @@ namespace Builtin
 	    llvm::Value* sel1 = builder.CreateICmpUGT(v, zero, "gt");
 	    return builder.CreateSelect(sel1, one, zero, "sgn1");
 	}
-	llvm::Value* sel1 = builder.CreateICmpSGT(v, zero, "gt");
-	llvm::Value* sel2 = builder.CreateICmpSLT(v, zero, "lt");
+	llvm::Value* izero = MakeConstant(0, args[0]->Type());
+	llvm::Value* sel1 = builder.CreateICmpSGT(v, izero, "gt");
+	llvm::Value* sel2 = builder.CreateICmpSLT(v, izero, "lt");
 	llvm::Value* res = builder.CreateSelect(sel1, one, zero, "sgn1");
 	return builder.CreateSelect(sel2, mone, res, "sgn2");
     }
@@ -1734,7 +1756,8 @@ namespace Builtin
 	{
 	    return ErrorType::WrongArgCount;
 	}
-	if (!llvm::isa<Types::FileDecl>(args[0]->Type()) || !IsIntegral(args[1]->Type()))
+	if (!llvm::isa<Types::FileDecl>(args[0]->Type()) || !llvm::isa<AddressableAST>(args[0]) ||
+	    !IsInteger(args[1]->Type()))
 	{
 	    return ErrorType::WrongArgType;
 	}
@@ -1746,7 +1769,7 @@ namespace Builtin
 	auto fvar = llvm::dyn_cast<AddressableAST>(args[0]);
 	ICE_IF(!fvar, "Should be a variable here");
 	llvm::Value* faddr = fvar->Address();
-	llvm::Value* pos = Recast(args[1], Types::Get<Types::Int64Decl>())->CodeGen();
+	llvm::Value* pos = IntegerArg(builder, args[1], Types::Get<Types::Int64Decl>()->LlvmType());
 
 	llvm::FunctionCallee f = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(),
 	                                     { faddr->getType(), Types::Get<Types::Int64Decl>()->LlvmType() },
-- 
2.43.0


From a1759fd2b2184712fcead8e138de1896a479cf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 34/93] fix: min and max of mixed types, trim of a char array,
 and string variables as file name or panic message

---
 builtin.cpp | 61 ++++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 51 insertions(+), 10 deletions(-)

diff --git a/builtin.cpp b/builtin.cpp
index c2eb339..8cba04a 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -42,6 +42,26 @@ namespace Builtin
 	return true;
     }
 
+    // A zero terminated string, for the runtime functions that take one.
+    static llvm::Value* MakeCString(llvm::IRBuilder<>& builder, ExprAST* arg)
+    {
+	if (llvm::isa<StringExprAST>(arg))
+	{
+	    return arg->CodeGen();
+	}
+	llvm::Type*          charTy = Types::Get<Types::CharDecl>()->LlvmType();
+	llvm::Type*          intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
+	llvm::Value*         str = MakeStringFromExpr(arg, arg->Type());
+	llvm::Value*         res = CreateTempAlloca(Types::Get<Types::StringDecl>(255));
+	llvm::FunctionCallee f = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(),
+	                                     { res->getType(), str->getType(), intTy }, "__StrAssign");
+	builder.CreateCall(f, { res, str, MakeIntegerConstant(255) });
+	llvm::Value* len = builder.CreateZExt(builder.CreateLoad(charTy, res, "len"), intTy);
+	llvm::Value* text = builder.CreateGEP(charTy, res, MakeIntegerConstant(1), "text");
+	builder.CreateStore(llvm::Constant::getNullValue(charTy), builder.CreateGEP(charTy, text, len));
+	return text;
+    }
+
     using ArgList = const std::vector<ExprAST*>;
     using CreateBIFObject = std::function<FunctionBase*(const std::string&, ArgList&)>;
 
@@ -106,11 +126,7 @@ namespace Builtin
     {
     public:
 	using FunctionBase::FunctionBase;
-	Types::TypeDecl* Type() const override
-	{
-	    // Wrong number of arguments is diagnosed by Semantics().
-	    return args.empty() ? Types::Get<Types::VoidDecl>() : args[0]->Type();
-	}
+	Types::TypeDecl* Type() const override;
 	ErrorType        Semantics() override;
     };
 
@@ -564,15 +580,40 @@ namespace Builtin
 	return ErrorType::Ok;
     }
 
+    // The larger of the two types, real being larger than both integer types.
+    Types::TypeDecl* FunctionSameAsArg2::Type() const
+    {
+	Types::TypeDecl* ty = Types::Get<Types::IntegerDecl>();
+	for (auto arg : args)
+	{
+	    if (llvm::isa<Types::RealDecl>(arg->Type()))
+	    {
+		return Types::Get<Types::RealDecl>();
+	    }
+	    if (llvm::isa<Types::Int64Decl>(BaseType(arg->Type())))
+	    {
+		ty = Types::Get<Types::Int64Decl>();
+	    }
+	}
+	return ty;
+    }
+
     ErrorType FunctionSameAsArg2::Semantics()
     {
 	if (args.size() != 2)
 	{
 	    return ErrorType::WrongArgCount;
 	}
-	if (!Types::IsNumeric(args[0]->Type()) || !Types::IsNumeric(args[1]->Type()))
+	for (auto& arg : args)
 	{
-	    return ErrorType::WrongArgType;
+	    if (!Types::IsNumeric(arg->Type()) || llvm::isa<Types::ComplexDecl>(arg->Type()))
+	    {
+		return ErrorType::WrongArgType;
+	    }
+	    if (BaseType(arg->Type()) != Type())
+	    {
+		arg = Recast(arg, Type());
+	    }
 	}
 	return ErrorType::Ok;
     }
@@ -1258,7 +1299,7 @@ namespace Builtin
 	auto         fvar = llvm::dyn_cast<AddressableAST>(args[0]);
 	llvm::Value* faddr = fvar->Address();
 
-	llvm::Value*             filename = args[1]->CodeGen();
+	llvm::Value*             filename = MakeCString(builder, args[1]);
 	llvm::Type*              ty = filename->getType();
 	std::vector<llvm::Type*> argTypes = { faddr->getType(), ty };
 
@@ -1327,7 +1368,7 @@ namespace Builtin
     llvm::Value* FunctionTrim::CodeGen(llvm::IRBuilder<>& builder)
     {
 	llvm::Value* str = MakeStringFromExpr(args[0], args[0]->Type());
-	llvm::Value* res = CreateTempAlloca(args[0]->Type());
+	llvm::Value* res = CreateTempAlloca(Type());
 
 	llvm::Type*          ty = str->getType();
 	llvm::FunctionCallee f = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(), { ty, ty },
@@ -1392,7 +1433,7 @@ namespace Builtin
 
     llvm::Value* FunctionPanic::CodeGen(llvm::IRBuilder<>& builder)
     {
-	llvm::Value*         message = args[0]->CodeGen();
+	llvm::Value*         message = MakeCString(builder, args[0]);
 	llvm::Type*          ty = message->getType();
 	llvm::FunctionCallee f = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(), { ty }, "__Panic");
 
-- 
2.43.0


From 6074bf4d83ae91eca8218fbe9941f72029d56dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 35/93] fix: abs of a real evaluates its argument once

---
 builtin.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/builtin.cpp b/builtin.cpp
index 8cba04a..0bcb6d0 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -647,13 +647,13 @@ namespace Builtin
 	    return builder.CreateCall(f, sum, "sqrt");
 	}
 
-	llvm::Value* a = args[0]->CodeGen();
 	if (IsUnsigned(args[0]->Type()))
 	{
-	    return a;
+	    return args[0]->CodeGen();
 	}
 	if (IsIntegral(args[0]->Type()))
 	{
+	    llvm::Value* a = args[0]->CodeGen();
 	    llvm::Value* neg = builder.CreateNeg(a, "neg");
 	    llvm::Value* cmp = builder.CreateICmpSGE(a, MakeConstant(0, args[0]->Type()), "abscond");
 	    llvm::Value* res = builder.CreateSelect(cmp, a, neg, "abs");
-- 
2.43.0


From 0b3f0fbae8387c4355daafaa3cc41b7f29956378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 36/93] fix: val accepts subrange variables, and frac of a
 complex value is an error instead of a missing routine

---
 builtin.cpp | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/builtin.cpp b/builtin.cpp
index 0bcb6d0..c586fd9 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -257,6 +257,13 @@ namespace Builtin
 	std::string func;
     };
 
+    class FunctionFrac : public FunctionFloat
+    {
+    public:
+	using FunctionFloat::FunctionFloat;
+	ErrorType Semantics() override;
+    };
+
     class FunctionFloat2Arg : public FunctionFloat
     {
     public:
@@ -743,6 +750,15 @@ namespace Builtin
 	return ErrorType::WrongArgType;
     }
 
+    ErrorType FunctionFrac::Semantics()
+    {
+	if (args.size() == 1 && llvm::isa<Types::ComplexDecl>(args[0]->Type()))
+	{
+	    return ErrorType::WrongArgType;
+	}
+	return FunctionFloat::Semantics();
+    }
+
     llvm::Value* FunctionFloatIntrinsic::CodeGen(llvm::IRBuilder<>& builder)
     {
 	if (llvm::isa<Types::ComplexDecl>(args[0]->Type()))
@@ -1193,15 +1209,20 @@ namespace Builtin
 	llvm::Value* str = MakeStringFromExpr(args[0], args[0]->Type());
 	auto         var1 = llvm::dyn_cast<VariableExprAST>(args[1]);
 	std::string  name = "__Val_";
-	if (llvm::isa<Types::IntegerDecl>(var1->Type()))
+	auto         varTy = var1->Type();
+	if (auto rd = llvm::dyn_cast<Types::RangeDecl>(varTy))
+	{
+	    varTy = rd->SubType();
+	}
+	if (llvm::isa<Types::IntegerDecl>(varTy))
 	{
 	    name += "int";
 	}
-	else if (llvm::isa<Types::Int64Decl>(var1->Type()))
+	else if (llvm::isa<Types::Int64Decl>(varTy))
 	{
 	    name += "long";
 	}
-	else if (llvm::isa<Types::RealDecl>(var1->Type()))
+	else if (llvm::isa<Types::RealDecl>(varTy))
 	{
 	    name += "real";
 	}
@@ -2013,7 +2034,7 @@ namespace Builtin
 	AddBIFCreator("im", NEW2(ReIm, 1));
 	AddBIFCreator("arg", NEW(CmplxToReal));
 	AddBIFCreator("polar", NEW(Polar));
-	AddBIFCreator("frac", NEW2(Float, "__frac"));
+	AddBIFCreator("frac", NEW2(Frac, "__frac"));
 	AddBIFCreator("int", NEW(IntConvert));
     }
 } // namespace Builtin
-- 
2.43.0


From 79434a3dab0b682b4cfc7f1c67c87ce5d6746950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:16 +0000
Subject: [PATCH 37/93] fix: file routines refuse a file that is not open,
 assign reuses the variable's entry, get and put of text files move one
 character

---
 runtime/assign.c   | 13 +++++++++++++
 runtime/fileio.c   | 34 +++++++++++++++-------------------
 runtime/getput.c   | 36 ++++++++----------------------------
 runtime/read.c     | 45 ++++++++-------------------------------------
 runtime/readbin.c  | 11 +----------
 runtime/runtime.h  | 30 ++++++++++++++++++++++++++----
 runtime/write.c    | 16 ++++++++--------
 runtime/writebin.c | 11 +----------
 8 files changed, 80 insertions(+), 116 deletions(-)

diff --git a/runtime/assign.c b/runtime/assign.c
index d97ce5a..682a314 100644
--- a/runtime/assign.c
+++ b/runtime/assign.c
@@ -44,6 +44,19 @@ void SetupFile(File* f, int recSize, int isText)
  */
 void __assign(File* f, char* name)
 {
+    struct FileEntry* entry = getEntry(f);
+    if (entry)
+    {
+	/* The variable gives up the file it had, and can use the same entry again. */
+	if (entry->file)
+	{
+	    fclose(entry->file);
+	    entry->file = NULL;
+	}
+	free(entry->name);
+	entry->inUse = 0;
+    }
+
     int i;
     for (i = 0; i < MaxPascalFiles && files[i].inUse; i++)
 	;
diff --git a/runtime/fileio.c b/runtime/fileio.c
index db62af3..7865b2c 100644
--- a/runtime/fileio.c
+++ b/runtime/fileio.c
@@ -15,35 +15,31 @@ void FileError(const char* op)
 
 void __close(File* f)
 {
-    if (files[f->handle].inUse && files[f->handle].file != NULL)
-    {
-	fclose(files[f->handle].file);
-	files[f->handle].file = NULL;
-	return;
-    }
-    FileError("close");
+    struct FileEntry* entry = getOpenEntry(f, "close");
+    fclose(entry->file);
+    entry->file = NULL;
 }
 
 static void OpenFile(File* f, int recSize, int isText, const char* mode)
 {
-    if (!f->handle)
+    if (!getEntry(f))
     {
 	__assign_unnamed(f);
     }
+    struct FileEntry* entry = getEntry(f);
+    if (entry->file)
+    {
+	__close(f);
+    }
     SetupFile(f, recSize, isText);
-    if (files[f->handle].inUse)
+    if (entry->name)
+    {
+	entry->file = fopen(entry->name, mode);
+    }
+    if (!entry->file)
     {
-	if (files[f->handle].file)
-	{
-	    __close(f);
-	}
-	files[f->handle].file = fopen(files[f->handle].name, mode);
-	if (files[f->handle].file)
-	{
-	    return;
-	}
+	FileError("open");
     }
-    FileError("open");
 }
 
 void __reset(File* f, int recSize, int isText)
diff --git a/runtime/getput.c b/runtime/getput.c
index 2259758..ce99204 100644
--- a/runtime/getput.c
+++ b/runtime/getput.c
@@ -7,46 +7,26 @@
 
 void __put(File* file)
 {
-    struct FileEntry* f = 0;
-    if (file->handle < MaxPascalFiles && files[file->handle].inUse)
-    {
-	f = &files[file->handle];
-    }
-    fwrite(file->buffer, file->recordSize, 1, f->file);
+    fwrite(file->buffer, file->isText ? 1 : file->recordSize, 1, getFile(file, "write to"));
 }
 
 int __get(File* file)
 {
-    struct FileEntry* f = 0;
-    if (file->handle < MaxPascalFiles && files[file->handle].inUse)
-    {
-	f = &files[file->handle];
-    }
+    struct FileEntry* f = getOpenEntry(file, "read");
     if (file->isText)
     {
-	int ch = fgetc(f->file);
-	*file->buffer = ch;
-	f->readAhead = (ch != EOF);
-	return f->readAhead;
+	return __get_text(file);
     }
-    else
+    if (fread(file->buffer, file->recordSize, 1, f->file) > 0)
     {
-	if (fread(file->buffer, file->recordSize, 1, f->file) > 0)
-	{
-	    f->readAhead = 1;
-	    return 1;
-	}
-	f->readAhead = 0;
+	f->readAhead = 1;
+	return 1;
     }
+    f->readAhead = 0;
     return 0;
 }
 
 void __page(File* file)
 {
-    struct FileEntry* f = 0;
-    if (file->handle < MaxPascalFiles && files[file->handle].inUse)
-    {
-	f = &files[file->handle];
-    }
-    fputc('\014', f->file);
+    fputc('\014', getFile(file, "write to"));
 }
diff --git a/runtime/read.c b/runtime/read.c
index 7c34fd3..bec5b2e 100644
--- a/runtime/read.c
+++ b/runtime/read.c
@@ -19,7 +19,7 @@ static int read_chunk_text(struct FileEntry* f)
 	if (f->readPos != f->bufferSize)
 	{
 	    f->readAhead = 1;
-	    return f->fileData->buffer[f->readPos++];
+	    return (unsigned char)f->fileData->buffer[f->readPos++];
 	}
 
 	int n;
@@ -30,17 +30,16 @@ static int read_chunk_text(struct FileEntry* f)
 		f->bufferSize = n;
 		f->readAhead = 1;
 		f->readPos = 1;
-		return *file->buffer;
+		return (unsigned char)*file->buffer;
 	    }
 	}
     }
     return EOF;
 }
 
-/* Make a local function so it can inline */
-static int __get_text(File* file)
+int __get_text(File* file)
 {
-    struct FileEntry* f = &files[file->handle];
+    struct FileEntry* f = getOpenEntry(file, "read");
     int               ch = read_chunk_text(f);
     *file->buffer = ch;
     if (ch == EOF)
@@ -57,7 +56,7 @@ static int __get_text(File* file)
  */
 int __eof(File* file)
 {
-    if (!files[file->handle].readAhead)
+    if (!getOpenEntry(file, "read")->readAhead)
     {
 	if (!__get_text(file))
 	{
@@ -69,7 +68,7 @@ int __eof(File* file)
 
 int __eoln(File* file)
 {
-    if (!files[file->handle].readAhead)
+    if (!getOpenEntry(file, "read")->readAhead)
     {
 	if (!__get_text(file))
 	{
@@ -120,7 +119,7 @@ static int file_eoln(struct interface* intf)
 
 static void file_preread(struct interface* intf)
 {
-    if (!files[intf->file->handle].readAhead)
+    if (!getOpenEntry(intf->file, "read")->readAhead)
     {
 	__get_text(intf->file);
     }
@@ -312,11 +311,6 @@ static void readint64(struct interface* intf, int64_t* v)
 
 void __read_int64(File* file, int64_t* v)
 {
-    if (file->handle >= MaxPascalFiles)
-    {
-	return;
-    }
-
     struct interface intf;
     initFile(file, &intf);
     readint64(&intf, v);
@@ -354,11 +348,6 @@ static void readchar(struct interface* intf, char* v)
 
 void __read_chr(File* file, char* v)
 {
-    if (file->handle >= MaxPascalFiles)
-    {
-	return;
-    }
-
     struct interface intf;
     initFile(file, &intf);
 
@@ -429,11 +418,6 @@ static void readreal(struct interface* intf, double* v)
 
 void __read_real(File* file, double* v)
 {
-    if (file->handle >= MaxPascalFiles)
-    {
-	return;
-    }
-
     struct interface intf;
     initFile(file, &intf);
 
@@ -450,7 +434,7 @@ void __read_S_real(String* str, double* v)
 
 void __read_nl(File* file)
 {
-    if (!files[file->handle].readAhead)
+    if (!getOpenEntry(file, "read")->readAhead)
     {
 	if (!__get_text(file))
 	{
@@ -486,11 +470,6 @@ static void readstr(struct interface* intf, String* v)
 
 void __read_str(File* file, String* v)
 {
-    if (file->handle >= MaxPascalFiles)
-    {
-	return;
-    }
-
     struct interface intf;
     initFile(file, &intf);
 
@@ -520,10 +499,6 @@ static void readchars(struct interface* intf, char* v, int size)
 
 void __read_chars(File* file, char* v, int size)
 {
-    if (file->handle >= MaxPascalFiles)
-    {
-	return;
-    }
     struct interface intf;
     initFile(file, &intf);
 
@@ -582,10 +557,6 @@ static void readbool(struct interface* intf, char* b)
 
 void __read_bool(File* file, char* b)
 {
-    if (file->handle >= MaxPascalFiles)
-    {
-	return;
-    }
     struct interface intf;
     initFile(file, &intf);
 
diff --git a/runtime/readbin.c b/runtime/readbin.c
index e320233..a293cff 100644
--- a/runtime/readbin.c
+++ b/runtime/readbin.c
@@ -3,16 +3,7 @@
 
 void __read_bin(File* file, void* val)
 {
-    struct FileEntry* f = 0;
-    if (file->handle < MaxPascalFiles && files[file->handle].inUse)
-    {
-	f = &files[file->handle];
-    }
-    if (!f)
-    {
-	fprintf(stderr, "Invalid file used for read binary\n");
-	return;
-    }
+    getOpenEntry(file, "read");
     memcpy(val, file->buffer, file->recordSize);
     __get(file);
 }
diff --git a/runtime/runtime.h b/runtime/runtime.h
index eea64f8..9ceb16e 100644
--- a/runtime/runtime.h
+++ b/runtime/runtime.h
@@ -95,22 +95,44 @@ extern File output;
  */
 void InitFiles();
 void SetupFile(File* f, int recSize, int isText);
-void FileError(const char* op);
+_Noreturn void FileError(const char* op);
 
 /*******************************************
  * File Basics, low level I/O.
  *******************************************
  */
-static inline FILE* getFile(File* f)
+/* The entry of a file variable, or NULL if nothing has been assigned to it. */
+static inline struct FileEntry* getEntry(File* f)
 {
-    if (f->handle < MaxPascalFiles && files[f->handle].inUse)
+    if (f->handle >= 0 && f->handle < MaxPascalFiles)
     {
-	return files[f->handle].file;
+	struct FileEntry* entry = &files[f->handle];
+	if (entry->inUse && entry->fileData == f)
+	{
+	    return entry;
+	}
     }
     return NULL;
 }
 
+/* The entry of a file variable that is open. The program ends with an error if it isn't. */
+static inline struct FileEntry* getOpenEntry(File* f, const char* op)
+{
+    struct FileEntry* entry = getEntry(f);
+    if (!entry || !entry->file)
+    {
+	FileError(op);
+    }
+    return entry;
+}
+
+static inline FILE* getFile(File* f, const char* op)
+{
+    return getOpenEntry(f, op)->file;
+}
+
 int  __get(File* file);
+int  __get_text(File* file);
 void __put(File* file);
 int  __eof(File* file);
 int  __eoln(File* file);
diff --git a/runtime/write.c b/runtime/write.c
index 86c0c93..56788dd 100644
--- a/runtime/write.c
+++ b/runtime/write.c
@@ -35,7 +35,7 @@ void __write_S_int32(String* str, int v, int width)
 
 void __write_int32(File* file, int v, int width)
 {
-    FILE* f = getFile(file);
+    FILE* f = getFile(file, "write to");
     fprintf(f, "%*d", width, v);
 }
 
@@ -48,7 +48,7 @@ void __write_S_int64(String* str, int64_t v, int width)
 
 void __write_int64(File* file, int64_t v, int width)
 {
-    FILE* f = getFile(file);
+    FILE* f = getFile(file, "write to");
     fprintf(f, "%*" PRId64, width, v);
 }
 
@@ -72,7 +72,7 @@ void __write_S_real(String* str, double v, int width, int precision)
 
 void __write_real(File* file, double v, int width, int precision)
 {
-    FILE* f = getFile(file);
+    FILE* f = getFile(file, "write to");
     bool  scientific = precision == -1;
 
     if (scientific)
@@ -99,7 +99,7 @@ void __write_S_char(String* str, char v, int width)
 
 void __write_char(File* file, char v, int width)
 {
-    FILE* f = getFile(file);
+    FILE* f = getFile(file, "write to");
     if (width <= 0)
     {
 	width = 1;
@@ -121,7 +121,7 @@ void __write_S_bool(String* str, int v, int width)
 
 void __write_bool(File* file, int v, int width)
 {
-    FILE*       f = getFile(file);
+    FILE*       f = getFile(file, "write to");
     const char* vstr = (v & 1) ? "TRUE" : "FALSE";
     if (width <= 0)
     {
@@ -151,7 +151,7 @@ void __write_S_chars(String* str, const char* v, int len, int width)
 
 void __write_chars(File* file, const char* v, int len, int width)
 {
-    FILE* f = getFile(file);
+    FILE* f = getFile(file, "write to");
     if (width > 0)
     {
 	if (len > width)
@@ -186,7 +186,7 @@ void __write_S_str(String* str, const String* v, int width)
 
 void __write_str(File* file, const String* v, int width)
 {
-    FILE* f = getFile(file);
+    FILE* f = getFile(file, "write to");
     char  s[MaxStringLen + 1];
     memcpy(s, v->str, v->len);
     s[v->len] = 0;
@@ -234,6 +234,6 @@ void __write_enum(File* file, int en, int width, struct EnumToString* e2s)
 
 void __write_nl(File* file)
 {
-    FILE* f = getFile(file);
+    FILE* f = getFile(file, "write to");
     fputc('\n', f);
 }
diff --git a/runtime/writebin.c b/runtime/writebin.c
index 5bfce92..c7ed153 100644
--- a/runtime/writebin.c
+++ b/runtime/writebin.c
@@ -3,16 +3,7 @@
 
 void __write_bin(File* file, void* val)
 {
-    struct FileEntry* f = 0;
-    if (file->handle < MaxPascalFiles && files[file->handle].inUse)
-    {
-	f = &files[file->handle];
-    }
-    if (!f)
-    {
-	fprintf(stderr, "Invalid file used for write binary file\n");
-	return;
-    }
+    getOpenEntry(file, "write to");
     memcpy(file->buffer, val, file->recordSize);
     __put(file);
 }
-- 
2.43.0


From d525687fb9a73d06c29d3113897e0e6a3ab3a0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:16 +0000
Subject: [PATCH 38/93] fix: seeking positions at the element, and position and
 length queries work on 32-bit targets

---
 runtime/seek.c | 77 ++++++++++++++++++--------------------------------
 1 file changed, 28 insertions(+), 49 deletions(-)

diff --git a/runtime/seek.c b/runtime/seek.c
index 6f8cfda..02dc815 100644
--- a/runtime/seek.c
+++ b/runtime/seek.c
@@ -3,6 +3,20 @@
 #include <stdio.h>
 #include <stdlib.h>
 
+static void seekElement(struct FileEntry* entry, uint64_t n)
+{
+    fseek(entry->file, n * entry->fileData->recordSize, SEEK_SET);
+}
+
+static int64_t fileLength(FILE* file)
+{
+    long current = ftell(file);
+    fseek(file, 0, SEEK_END);
+    long len = ftell(file);
+    fseek(file, current, SEEK_SET);
+    return len;
+}
+
 /*******************************************
  * File seek and position functions
  *******************************************
@@ -10,72 +24,37 @@
 
 void __seekwrite(File* f, uint64_t n)
 {
-    if (files[f->handle].inUse && files[f->handle].file != NULL)
-    {
-	fseek(files[f->handle].file, SEEK_SET, n * f->recordSize);
-	return;
-    }
-    FileError("seekwrite");
+    struct FileEntry* entry = getOpenEntry(f, "seekwrite");
+    seekElement(entry, n);
+    entry->readAhead = 0;
 }
 
 void __seekread(File* f, uint64_t n)
 {
-    if (files[f->handle].inUse && files[f->handle].file != NULL)
-    {
-	fseek(files[f->handle].file, SEEK_SET, n * f->recordSize);
-	return;
-    }
-    FileError("seekread");
+    seekElement(getOpenEntry(f, "seekread"), n);
+    __get(f);
 }
 
 void __seekupdate(File* f, uint64_t n)
 {
-    if (files[f->handle].inUse && files[f->handle].file != NULL)
-    {
-	fseek(files[f->handle].file, SEEK_SET, n * f->recordSize);
-	return;
-    }
-    FileError("seekupdate");
+    seekElement(getOpenEntry(f, "seekupdate"), n);
+    __get(f);
 }
 
 /* Note this is not thread-safe, but we don't have threads in Lacsap at present! */
 bool __empty(File* f)
 {
-    if (files[f->handle].inUse && files[f->handle].file != NULL)
-    {
-	FILE* file = files[f->handle].file;
-	long  current = ftell(file);
-	fseek(file, SEEK_END, 0);
-	long len = ftell(file);
-	fseek(file, SEEK_SET, current);
-	return (len == 0);
-    }
-    FileError("empty");
-    return false;
+    return fileLength(getFile(f, "empty")) == 0;
 }
 
-long __position(File* f)
+int64_t __position(File* f)
 {
-    if (files[f->handle].inUse && files[f->handle].file != NULL)
-    {
-	long current = ftell(files[f->handle].file);
-	return current / f->recordSize;
-    }
-    FileError("position");
-    return 0;
+    struct FileEntry* entry = getOpenEntry(f, "position");
+    /* The element in the file buffer is the current one */
+    return ftell(entry->file) / f->recordSize - entry->readAhead;
 }
 
-long __lastposition(File* f)
+int64_t __lastposition(File* f)
 {
-    if (files[f->handle].inUse && files[f->handle].file != NULL)
-    {
-	FILE* file = files[f->handle].file;
-	long  current = ftell(file);
-	fseek(file, SEEK_END, 0);
-	long len = ftell(file);
-	fseek(file, SEEK_SET, current);
-	return len / f->recordSize;
-    }
-    FileError("lastposition");
-    return 0;
+    return fileLength(getFile(f, "lastposition")) / f->recordSize;
 }
-- 
2.43.0


From 6ee960921e43a3778c8a19e702775a6ec256a449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:16 +0000
Subject: [PATCH 39/93] fix: bind and unbind change the name of an assigned
 file

---
 builtin.cpp    |  4 ++--
 runtime/bind.c | 34 +++++++++++++++++-----------------
 2 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/builtin.cpp b/builtin.cpp
index c586fd9..bbb726a 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -1786,8 +1786,8 @@ namespace Builtin
 	auto fvar = llvm::dyn_cast<AddressableAST>(args[0]);
 	ICE_IF(!fvar, "Should be a variable here");
 	llvm::Value*             faddr = fvar->Address();
-	llvm::Value*             binding = args[1]->CodeGen();
-	std::vector<llvm::Type*> argTypes = { faddr->getType(), Types::GetBindingType()->LlvmType() };
+	llvm::Value*             binding = MakeAddressable(args[1]);
+	std::vector<llvm::Type*> argTypes = { faddr->getType(), binding->getType() };
 	llvm::FunctionCallee     f = GetFunction(Type()->LlvmType(), argTypes, "__" + name);
 
 	return builder.CreateCall(f, { faddr, binding });
diff --git a/runtime/bind.c b/runtime/bind.c
index 8d8d069..6e6416a 100644
--- a/runtime/bind.c
+++ b/runtime/bind.c
@@ -7,38 +7,38 @@ struct BindingType __binding(File* f)
     struct BindingType r;
     r.Bound = false;
     r.Name.len = 0;
-    if (f->handle > 0 && f->handle < MaxPascalFiles)
+    struct FileEntry* fe = getEntry(f);
+    if (fe && fe->name)
     {
-	struct FileEntry* fe = &files[f->handle];
-	if (fe->name)
+	size_t len = strlen(fe->name);
+	if (len > MaxStringLen)
 	{
-	    size_t len = strlen(fe->name);
-	    assert(len < 255);
-	    r.Name.len = len;
-	    memcpy(r.Name.str, fe->name, len);
-	    r.Bound = true;
+	    len = MaxStringLen;
 	}
+	r.Name.len = len;
+	memcpy(r.Name.str, fe->name, len);
+	r.Bound = true;
     }
     return r;
 }
 
 void __bind(File* f, struct BindingType* b)
 {
-    if (f->handle > 0 && f->handle > MaxPascalFiles)
+    struct FileEntry* fe = getEntry(f);
+    if (fe)
     {
-	if (files[f->handle].name)
-	    free(files[f->handle].name);
-	files[f->handle].name = calloc(1, b->Name.len + 1);
-	memcpy(files[f->handle].name, b->Name.str, b->Name.len);
+	free(fe->name);
+	fe->name = calloc(1, b->Name.len + 1);
+	memcpy(fe->name, b->Name.str, b->Name.len);
     }
 }
 
 void __unbind(File* f)
 {
-    if (f->handle > 0 && f->handle > MaxPascalFiles)
+    struct FileEntry* fe = getEntry(f);
+    if (fe)
     {
-	char* ptr = files[f->handle].name;
-	files[f->handle].name = NULL;
-	free(ptr);
+	free(fe->name);
+	fe->name = NULL;
     }
 }
-- 
2.43.0


From 32e132bae0faf54a54b568a1294b47948ef67e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:00 +0000
Subject: [PATCH 40/93] fix: Every unnamed temporary file gets its own number

---
 runtime/assign.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/runtime/assign.c b/runtime/assign.c
index 682a314..ba64cbb 100644
--- a/runtime/assign.c
+++ b/runtime/assign.c
@@ -84,10 +84,11 @@ void __assign_unnamed(File* f)
     n++;
     n %= MaxPascalFiles;
     size_t pos = strlen(name) - 1;
+    int    number = n;
     for (int i = 0; i < 6; i++)
     {
-	name[pos] = '0' + (n % 10);
-	n /= 10;
+	name[pos] = '0' + (number % 10);
+	number /= 10;
 	pos--;
     }
     __assign(f, name);
-- 
2.43.0


From 44735e59dca396c811472c1d38211e9df7d2b7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:35 +0000
Subject: [PATCH 41/93] fix: an assignment is checked once the types within its
 value are known

---
 expr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.h b/expr.h
index 7c8fccd..b60df36 100644
--- a/expr.h
+++ b/expr.h
@@ -492,8 +492,8 @@ public:
     void         accept(ASTVisitor& v) override
     {
 	lhs->accept(v);
-	v.visit(this);
 	rhs->accept(v);
+	v.visit(this);
     }
 
 private:
-- 
2.43.0


From 3566c2f62cae3c841ae7507e17d63277d19e37de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:35 +0000
Subject: [PATCH 42/93] fix: the elements of set expressions are checked, and
 decide the range of the set

---
 expr.cpp      |  10 ++-
 expr.h        |  16 ++++-
 parser.cpp    |  16 +++--
 semantics.cpp | 186 +++++++++++++++++++++++++++++++++++++++++++++-----
 4 files changed, 201 insertions(+), 27 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 0ce61e1..08530a3 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -3796,7 +3796,11 @@ llvm::Value* SetExprAST::Address()
 		high = builder.CreateSExt(high, intTy, "sext.high");
 	    }
 
+	    // Only values that the set has room for can be members of it.
 	    llvm::Value* rangeStart = MakeIntegerConstant(range->Start());
+	    llvm::Value* rangeEnd = MakeIntegerConstant(range->End());
+	    low = builder.CreateSelect(builder.CreateICmpSLT(low, rangeStart), rangeStart, low);
+	    high = builder.CreateSelect(builder.CreateICmpSGT(high, rangeEnd), rangeEnd, high);
 	    low = builder.CreateSub(low, rangeStart);
 	    high = builder.CreateSub(high, rangeStart);
 
@@ -3845,9 +3849,13 @@ llvm::Value* SetExprAST::Address()
 	    x = builder.CreateZExt(x, intTy, "zext");
 	    x = builder.CreateSub(x, rangeStart);
 
+	    // Only a value that the set has room for can be a member of it.
+	    llvm::Value* inRange = builder.CreateICmpULT(x, MakeIntegerConstant(range->Size()), "inrange");
+	    x = builder.CreateSelect(inRange, x, MakeIntegerConstant(0));
+
 	    llvm::Value* mask = MakeIntegerConstant(Types::SetDecl::SetMask);
 	    llvm::Value* offset = builder.CreateAnd(x, mask);
-	    llvm::Value* bit = builder.CreateShl(MakeIntegerConstant(1), offset);
+	    llvm::Value* bit = builder.CreateShl(builder.CreateZExt(inRange, intTy), offset);
 	    llvm::Value* index = 0;
 	    if (size != 1)
 	    {
diff --git a/expr.h b/expr.h
index b60df36..6f899e9 100644
--- a/expr.h
+++ b/expr.h
@@ -245,6 +245,15 @@ public:
     llvm::Constant* MakeConstantSetArray();
     llvm::Value*    MakeConstantSet();
     static bool     classof(const ExprAST* e) { return e->getKind() == EK_SetExpr; }
+    void            accept(ASTVisitor& v) override
+    {
+	for (auto i : values)
+	{
+	    i->accept(v);
+	}
+	v.visit(this);
+    }
+    const std::vector<ExprAST*>& Values() const { return values; }
 
 private:
     std::vector<ExprAST*> values;
@@ -425,6 +434,8 @@ public:
     llvm::Value* CodeGen() override;
     static bool  classof(const ExprAST* e) { return e->getKind() == EK_UnaryExpr; }
     void         UpdateType(Types::TypeDecl* ty);
+    const Token& Oper() const { return oper; }
+    ExprAST*     Operand() const { return rhs; }
     void         accept(ASTVisitor& v) override
     {
 	rhs->accept(v);
@@ -444,13 +455,12 @@ public:
     RangeExprAST(const Location& w, ExprAST* l, ExprAST* h)
         : ExprAST(w, EK_RangeExpr, l->Type()), low(l), high(h)
     {
-	ICE_IF(*l->Type() != *h->Type(), "Expect same type here");
     }
     void         DoDump() const override;
     llvm::Value* Low() { return low->CodeGen(); }
     llvm::Value* High() { return high->CodeGen(); }
-    ExprAST*     LowExpr() { return low; }
-    ExprAST*     HighExpr() { return high; }
+    ExprAST*     LowExpr() const { return low; }
+    ExprAST*     HighExpr() const { return high; }
     bool         IsConstant();
     static bool  classof(const ExprAST* e) { return e->getKind() == EK_RangeExpr; }
     void         accept(ASTVisitor& v) override
diff --git a/parser.cpp b/parser.cpp
index c1ca74b..5f0a451 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -2839,7 +2839,9 @@ static ExprAST* CreateSetExprFromSetConst(const Constants::SetConstDecl* set)
 	ICE_IF(!e, "Expected to have an ExprAST now!");
 	setValues.push_back(e);
     }
-    return new SetExprAST(set->Loc(), setValues, set->Type());
+    // What is around it decides the range of the set: each use has a type of its own.
+    auto sd = llvm::dyn_cast<Types::SetDecl>(set->Type());
+    return new SetExprAST(set->Loc(), setValues, new Types::SetDecl(0, sd->SubType()));
 }
 
 ExprAST* Parser::ParseCallOrVariableExpr(const Token& token)
@@ -2978,6 +2980,10 @@ public:
 	    if (parser.AcceptToken(Token::DotDot))
 	    {
 		ExprAST* vEnd = parser.ParseExpression();
+		if (!vEnd)
+		{
+		    return false;
+		}
 		v = new RangeExprAST(parser.CurrentToken().Loc(), v, vEnd);
 	    }
 	    values.push_back(v);
@@ -3003,13 +3009,11 @@ ExprAST* Parser::ParseSetExpr(Types::TypeDecl* setType)
 	Types::TypeDecl* type = 0;
 	if (!ccs.Values().empty())
 	{
+	    // The types of the other elements are checked when those are known.
 	    type = ccs.Values()[0]->Type();
-	    for (auto i = ccs.Values().begin() + 1, e = ccs.Values().end(); i != e; i++)
+	    while (auto rd = llvm::dyn_cast<Types::RangeBaseDecl>(type))
 	    {
-		if ((*i)->Type() != type)
-		{
-		    return Error("Not all elements of set are same type");
-		}
+		type = rd->SubType();
 	    }
 	}
 	if (!setType)
diff --git a/semantics.cpp b/semantics.cpp
index 12c0ff2..6cbfc36 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -11,6 +11,8 @@ public:
     TypeCheckVisitor(Source& src, Semantics* s) : sema(s), source(src){};
     void visit(ExprAST* expr) override;
 
+    void SetLiteralRange(ExprAST* e);
+
 private:
     Types::TypeDecl* BinarySetUpdate(BinaryExprAST* b);
     Types::TypeDecl* BinaryExprType(BinaryExprAST* b);
@@ -61,21 +63,17 @@ public:
 class SetRangeFixup : public SemaFixup
 {
 public:
-    SetRangeFixup(SetExprAST* s, Types::RangeDecl* r) : expr(s), guessRange(r) {}
+    SetRangeFixup(TypeCheckVisitor* v, SetExprAST* s) : visitor(v), expr(s) {}
     void DoIt() override;
 
 private:
+    TypeCheckVisitor* visitor;
     SetExprAST*       expr;
-    Types::RangeDecl* guessRange;
 };
 
 void SetRangeFixup::DoIt()
 {
-    if (!expr->Type()->GetRange())
-    {
-	auto sd = llvm::dyn_cast<Types::SetDecl>(expr->Type());
-	sd->UpdateRange(guessRange);
-    }
+    visitor->SetLiteralRange(expr);
 }
 
 static Types::RangeDecl* GetRangeDecl(Types::TypeDecl* ty)
@@ -90,7 +88,13 @@ static Types::RangeDecl* GetRangeDecl(Types::TypeDecl* ty)
 	{
 	    return 0;
 	}
-	r = sty->SubType()->GetRange();
+	Types::TypeDecl* sub = sty->SubType();
+	if (!IsIntegral(sub) || sub->Type() == Types::TypeDecl::TK_LongInt)
+	{
+	    // Not a possible set, which is reported where the elements are checked.
+	    sub = Types::Get<Types::IntegerDecl>();
+	}
+	r = sub->GetRange();
     }
 
     if (IsIntegral(ty))
@@ -110,6 +114,130 @@ static Types::RangeDecl* GetRangeDecl(Types::TypeDecl* ty)
     return new Types::RangeDecl(r, base);
 }
 
+// The type whose values the elements of a set are compared as: a subrange belongs to its host type.
+static Types::TypeDecl* ElementBaseType(Types::TypeDecl* ty)
+{
+    if (auto rd = llvm::dyn_cast<Types::RangeBaseDecl>(ty))
+    {
+	return ElementBaseType(rd->SubType());
+    }
+    return ty;
+}
+
+static bool ConstantElement(const ExprAST* e, int64_t& value)
+{
+    if (auto ie = llvm::dyn_cast<IntegerExprAST>(e))
+    {
+	value = ie->Int();
+	return true;
+    }
+    if (auto u = llvm::dyn_cast<UnaryExprAST>(e))
+    {
+	if (u->Oper().GetToken() == Token::Minus && ConstantElement(u->Operand(), value))
+	{
+	    value = -value;
+	    return true;
+	}
+    }
+    return false;
+}
+
+// The range needed for the elements listed in a set expression, when nothing around it says what it is.
+// Nothing is known of a computed integer, other than that small values are the most useful ones.
+static Types::RangeDecl* LiteralRange(const SetExprAST* s)
+{
+    auto sd = llvm::dyn_cast<Types::SetDecl>(s->Type());
+    if (!sd->SubType() || !llvm::isa<Types::IntegerDecl>(sd->SubType()))
+    {
+	return GetRangeDecl(sd);
+    }
+
+    int64_t low = INT64_MAX;
+    int64_t high = INT64_MIN;
+    bool    computed = false;
+    auto    include = [&](const ExprAST* e)
+    {
+	int64_t value;
+	if (ConstantElement(e, value))
+	{
+	    low = std::min(low, value);
+	    high = std::max(high, value);
+	}
+	else if (auto rd = llvm::dyn_cast<Types::RangeDecl>(e->Type()))
+	{
+	    low = std::min<int64_t>(low, rd->GetRange()->Start());
+	    high = std::max<int64_t>(high, rd->GetRange()->End());
+	}
+	else
+	{
+	    computed = true;
+	}
+    };
+    for (auto v : s->Values())
+    {
+	if (auto r = llvm::dyn_cast<RangeExprAST>(v))
+	{
+	    include(r->LowExpr());
+	    include(r->HighExpr());
+	}
+	else
+	{
+	    include(v);
+	}
+    }
+    if (computed)
+    {
+	low = std::min<int64_t>(low, 0);
+	high = std::max<int64_t>(high, low + Types::SetDecl::MaxSetSize - 1);
+    }
+    if (low < INT_MIN || high > INT_MAX || high - low >= Types::SetDecl::MaxSetSize)
+    {
+	return 0;
+    }
+    return new Types::RangeDecl(new Types::Range(low, high), sd->SubType());
+}
+
+// Is there a constant in the set expression that a set of the range has no room for?
+static bool HasConstantOutside(const ExprAST* e, const Types::Range* range)
+{
+    auto s = llvm::dyn_cast<SetExprAST>(e);
+    if (!s)
+    {
+	return false;
+    }
+    auto outside = [&](const ExprAST* v)
+    {
+	int64_t value;
+	return ConstantElement(v, value) && (value < range->Start() || value > range->End());
+    };
+    for (auto v : s->Values())
+    {
+	auto r = llvm::dyn_cast<RangeExprAST>(v);
+	if (r ? outside(r->LowExpr()) || outside(r->HighExpr()) : outside(v))
+	{
+	    return true;
+	}
+    }
+    return false;
+}
+
+void TypeCheckVisitor::SetLiteralRange(ExprAST* e)
+{
+    auto s = llvm::dyn_cast<SetExprAST>(e);
+    if (!s || s->values.empty() || s->Type()->GetRange())
+    {
+	return;
+    }
+    Types::RangeDecl* rd = LiteralRange(s);
+    if (!rd)
+    {
+	Error(s, "The elements of the set are too far apart");
+	rd = new Types::RangeDecl(new Types::Range(0, Types::SetDecl::MaxSetSize - 1),
+	                          Types::Get<Types::IntegerDecl>());
+    }
+    llvm::dyn_cast<Types::SetDecl>(s->Type())->UpdateRange(rd);
+}
+
 void TypeCheckVisitor::Error(const ExprAST* e, const std::string& msg) const
 {
     std::cerr << e->Loc() << " Error: " << msg << std::endl;
@@ -149,6 +277,15 @@ Types::TypeDecl* TypeCheckVisitor::BinarySetUpdate(BinaryExprAST* b)
 	    rty->UpdateSubtype(lty->SubType());
 	}
     }
+    bool noRange = !lty->GetRange() && !rty->GetRange();
+    if (noRange || (rty->GetRange() && HasConstantOutside(b->lhs, rty->GetRange())))
+    {
+	SetLiteralRange(b->lhs);
+    }
+    if (noRange || (lty->GetRange() && HasConstantOutside(b->rhs, lty->GetRange())))
+    {
+	SetLiteralRange(b->rhs);
+    }
     if (!lty->GetRange() && !rty->GetRange())
     {
 	Types::RangeDecl* r = GetRangeDecl(Types::Get<Types::IntegerDecl>());
@@ -187,6 +324,11 @@ Types::TypeDecl* TypeCheckVisitor::BinarySetUpdate(BinaryExprAST* b)
     {
 	Types::Range* range = new Types::Range(std::min(lr->Start(), rr->Start()),
 	                                       std::max(lr->End(), rr->End()));
+	if (range->Size() > Types::SetDecl::MaxSetSize)
+	{
+	    Error(b, "The elements of the sets are too far apart");
+	    return b->rhs->Type();
+	}
 
 	Types::RangeDecl* r = new Types::RangeDecl(range, rty->SubType());
 	Types::SetDecl*   set = new Types::SetDecl(r, rty->SubType());
@@ -194,7 +336,7 @@ Types::TypeDecl* TypeCheckVisitor::BinarySetUpdate(BinaryExprAST* b)
 	b->lhs = Recast(b->lhs, set);
 	b->rhs = Recast(b->rhs, set);
     }
-    return rty;
+    return b->rhs->Type();
 }
 
 Types::TypeDecl* TypeCheckVisitor::BinaryExprType(BinaryExprAST* b)
@@ -228,9 +370,10 @@ Types::TypeDecl* TypeCheckVisitor::BinaryExprType(BinaryExprAST* b)
 	    {
 		Error(b, "Left hand type does not match constituent parts of set");
 	    }
+	    SetLiteralRange(b->rhs);
 	    if (!sd->GetRange())
 	    {
-		sd->UpdateRange(GetRangeDecl(lty));
+		sd->UpdateRange(GetRangeDecl(sd));
 	    }
 	}
 	else
@@ -625,7 +768,7 @@ void TypeCheckVisitor::Check<RangeExprAST>(RangeExprAST* r)
 {
     TRACE();
 
-    if (*r->low->Type() != *r->high->Type())
+    if (*ElementBaseType(r->low->Type()) != *ElementBaseType(r->high->Type()))
     {
 	Error(r, "Range should be same type at both ends");
     }
@@ -636,15 +779,24 @@ void TypeCheckVisitor::Check<SetExprAST>(SetExprAST* s)
 {
     TRACE();
 
-    Types::Range* r;
-    if (!(r = s->Type()->GetRange()))
+    auto sd = llvm::dyn_cast<Types::SetDecl>(s->Type());
+    for (auto v : s->values)
     {
-	Types::RangeDecl* rd = GetRangeDecl(s->Type());
-	auto              sd = llvm::dyn_cast<Types::SetDecl>(s->Type());
-	if (sd->SubType())
+	auto             r = llvm::dyn_cast<RangeExprAST>(v);
+	Types::TypeDecl* ty = r ? r->LowExpr()->Type() : v->Type();
+	if (!IsIntegral(ty) || ty->Type() == Types::TypeDecl::TK_LongInt)
 	{
-	    sema->AddFixup(new SetRangeFixup(s, rd));
+	    Error(v, "Unsupported type for the elements of a set");
 	}
+	else if (*ElementBaseType(ty) != *ElementBaseType(sd->SubType()))
+	{
+	    Error(v, "Not all elements of set are same type");
+	}
+    }
+
+    if (!sd->GetRange() && sd->SubType())
+    {
+	sema->AddFixup(new SetRangeFixup(this, s));
     }
 }
 
-- 
2.43.0


From 3621d64007ae6de3a2f375f69c2b2d4e69bd4011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:07 +0000
Subject: [PATCH 43/93] fix: converting a set to a smaller range leaves no bits
 outside it

---
 expr.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/expr.cpp b/expr.cpp
index 08530a3..c6ae611 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -4068,6 +4068,12 @@ static llvm::Value* ConvertSet(ExprAST* expr, Types::TypeDecl* type)
 	{
 	    w = MakeIntegerConstant(0);
 	}
+	int64_t room = int64_t(lrange->End()) - i + 1;
+	if (room < Types::SetDecl::SetBits && rrange->End() > lrange->End())
+	{
+	    // Bits after the last element are no part of the set.
+	    w = builder.CreateAnd(w, (1u << room) - 1, "inrange");
+	}
 	llvm::Value* desti = builder.CreateGEP(intTy, dest, MakeIntegerConstant(p));
 	builder.CreateStore(w, desti);
 	p++;
-- 
2.43.0


From 174f53af8a526797999dfb0cd8d7ae4d3adf7131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:36 +0000
Subject: [PATCH 44/93] fix: an empty set as an argument or on its own has a
 type

---
 semantics.cpp | 64 +++++++++++++++++++++++++++++++++------------------
 1 file changed, 42 insertions(+), 22 deletions(-)

diff --git a/semantics.cpp b/semantics.cpp
index 6cbfc36..5871b02 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -71,11 +71,6 @@ private:
     SetExprAST*       expr;
 };
 
-void SetRangeFixup::DoIt()
-{
-    visitor->SetLiteralRange(expr);
-}
-
 static Types::RangeDecl* GetRangeDecl(Types::TypeDecl* ty)
 {
     Types::Range*    r = ty->GetRange();
@@ -114,6 +109,20 @@ static Types::RangeDecl* GetRangeDecl(Types::TypeDecl* ty)
     return new Types::RangeDecl(r, base);
 }
 
+void SetRangeFixup::DoIt()
+{
+    visitor->SetLiteralRange(expr);
+    auto sd = llvm::dyn_cast<Types::SetDecl>(expr->Type());
+    if (!sd->SubType())
+    {
+	sd->UpdateSubtype(Types::Get<Types::IntegerDecl>());
+    }
+    if (!sd->GetRange())
+    {
+	sd->UpdateRange(GetRangeDecl(sd));
+    }
+}
+
 // The type whose values the elements of a set are compared as: a subrange belongs to its host type.
 static Types::TypeDecl* ElementBaseType(Types::TypeDecl* ty)
 {
@@ -147,7 +156,7 @@ static bool ConstantElement(const ExprAST* e, int64_t& value)
 static Types::RangeDecl* LiteralRange(const SetExprAST* s)
 {
     auto sd = llvm::dyn_cast<Types::SetDecl>(s->Type());
-    if (!sd->SubType() || !llvm::isa<Types::IntegerDecl>(sd->SubType()))
+    if (!llvm::isa<Types::IntegerDecl>(sd->SubType()))
     {
 	return GetRangeDecl(sd);
     }
@@ -197,6 +206,26 @@ static Types::RangeDecl* LiteralRange(const SetExprAST* s)
     return new Types::RangeDecl(new Types::Range(low, high), sd->SubType());
 }
 
+// A set expression has the range and element type of the set that it is given to, if there are none yet.
+static void SetTypeFromContext(Types::TypeDecl* target, Types::TypeDecl* value)
+{
+    auto tty = llvm::dyn_cast<Types::SetDecl>(target);
+    auto vty = llvm::dyn_cast<Types::SetDecl>(value);
+    if (!tty || !vty)
+    {
+	return;
+    }
+    ICE_IF(!tty->GetRange() || !tty->SubType(), "Expected target type to be well defined.");
+    if (!vty->GetRange())
+    {
+	vty->UpdateRange(GetRangeDecl(tty));
+    }
+    if (!vty->SubType())
+    {
+	vty->UpdateSubtype(tty->SubType());
+    }
+}
+
 // Is there a constant in the set expression that a set of the range has no room for?
 static bool HasConstantOutside(const ExprAST* e, const Types::Range* range)
 {
@@ -696,21 +725,7 @@ void TypeCheckVisitor::Check<AssignExprAST>(AssignExprAST* a)
 	return;
     }
 
-    auto lsty = llvm::dyn_cast<Types::SetDecl>(lty);
-    auto rsty = llvm::dyn_cast<Types::SetDecl>(rty);
-    if (lsty && rsty)
-    {
-	ICE_IF(!lsty->GetRange() || !lsty->SubType(), "Expected left type to be well defined.");
-
-	if (!rsty->GetRange())
-	{
-	    rsty->UpdateRange(GetRangeDecl(lsty));
-	}
-	if (!rsty->SubType())
-	{
-	    rsty->UpdateSubtype(lsty->SubType());
-	}
-    }
+    SetTypeFromContext(lty, rty);
 
     // Note difference to binary expression: only allowed on rhs!
     if (llvm::isa<Types::PointerDecl>(lty) && llvm::isa<NilExprAST>(a->rhs))
@@ -794,7 +809,7 @@ void TypeCheckVisitor::Check<SetExprAST>(SetExprAST* s)
 	}
     }
 
-    if (!sd->GetRange() && sd->SubType())
+    if (!sd->GetRange())
     {
 	sema->AddFixup(new SetRangeFixup(this, s));
     }
@@ -893,6 +908,7 @@ void TypeCheckVisitor::Check<CallExprAST>(CallExprAST* c)
     {
 	bool bad = true;
 
+	SetTypeFromContext(parg[idx].Type(), a->Type());
 	if (const Types::TypeDecl* ty = parg[idx].Type()->AssignableType(a->Type()))
 	{
 	    if (parg[idx].IsRef() && !llvm::isa<AddressableAST, ClosureAST>(a))
@@ -978,6 +994,10 @@ void TypeCheckVisitor::Check<ForExprAST>(ForExprAST* f)
     {
 	if (auto setDecl = llvm::dyn_cast<Types::SetDecl>(f->start->Type()))
 	{
+	    if (!setDecl->SubType())
+	    {
+		setDecl->UpdateSubtype(ElementBaseType(vty));
+	    }
 	    if (!setDecl->SubType()->CompatibleType(vty) || setDecl->SubType()->Type() != vty->Type())
 	    {
 		Error(f->variable, "Expected variable to be compatible with set");
-- 
2.43.0


From 099102d309673ad5bea57b8190d62d953460d9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:38 +0000
Subject: [PATCH 45/93] fix: integer constants are signed, and div, mod, shl
 and shr of constants agree with run time

---
 constants.cpp | 51 ++++++++++++++++++++++++++++++++++++++++++++++++---
 constants.h   |  4 ++--
 parser.cpp    |  2 +-
 3 files changed, 51 insertions(+), 6 deletions(-)

diff --git a/constants.cpp b/constants.cpp
index 93010a9..9492731 100644
--- a/constants.cpp
+++ b/constants.cpp
@@ -4,6 +4,7 @@
 
 #include <cmath>
 #include <iostream>
+#include <limits>
 #include <sstream>
 
 #include <llvm/Support/Casting.h>
@@ -169,6 +170,32 @@ namespace Constants
 	return 0;
     }
 
+    static bool IsZero(const ConstDecl& c)
+    {
+	if (const auto ic = llvm::dyn_cast<IntConstDecl>(&c))
+	{
+	    return ic->Value() == 0;
+	}
+	const auto rc = llvm::dyn_cast<RealConstDecl>(&c);
+	return rc && rc->Value() == 0.0;
+    }
+
+    static bool IsShiftCount(const ConstDecl& c)
+    {
+	const auto ic = llvm::dyn_cast<IntConstDecl>(&c);
+	return ic && ic->Value() >= 0 && ic->Value() < 64;
+    }
+
+    // Zeros are shifted in, at the size that the operation has at run time.
+    static int64_t ShiftRight(int64_t v, int64_t n)
+    {
+	if (v < 0 && v >= std::numeric_limits<int32_t>::min())
+	{
+	    return (int32_t)((uint64_t)(uint32_t)v >> n);
+	}
+	return (uint64_t)v >> n;
+    }
+
     template<typename FN>
     ConstDecl* DoRealMath(const ConstDecl& lhs, const ConstDecl& rhs, FN fn)
     {
@@ -243,10 +270,16 @@ namespace Constants
 
     ConstDecl* operator/(const ConstDecl& lhs, const ConstDecl& rhs)
     {
+	if (IsZero(rhs))
+	{
+	    return ErrorConst("Division by zero");
+	}
 	ConstDecl* v = DoRealMath(lhs, rhs, [](double lv, double rv) { return lv / rv; });
 	if (!v)
 	{
-	    v = DoIntegerMath(lhs, rhs, [](uint64_t lv, uint64_t rv) { return lv / rv; });
+	    // Dividing by -1 is negation, which has a value for the lowest integer too.
+	    v = DoIntegerMath(lhs, rhs,
+	                      [](int64_t lv, int64_t rv) { return rv == -1 ? 0 - (uint64_t)lv : lv / rv; });
 	}
 	if (!v)
 	{
@@ -268,8 +301,12 @@ namespace Constants
 
     ConstDecl* operator%(const ConstDecl& lhs, const ConstDecl& rhs)
     {
+	if (IsZero(rhs))
+	{
+	    return ErrorConst("Division by zero");
+	}
 	return IntegerOrErrorMath(
-	    lhs, rhs, [](uint64_t lv, uint64_t rv) { return lv % rv; }, "mod");
+	    lhs, rhs, [](int64_t lv, int64_t rv) { return rv == -1 ? 0 : lv % rv; }, "mod");
     }
 
     ConstDecl* operator&(const ConstDecl& lhs, const ConstDecl& rhs)
@@ -292,14 +329,22 @@ namespace Constants
 
     ConstDecl* operator<<(const ConstDecl& lhs, const ConstDecl& rhs)
     {
+	if (!IsShiftCount(rhs))
+	{
+	    return ErrorConst("Invalid number of bits for shl");
+	}
 	return IntegerOrErrorMath(
 	    lhs, rhs, [](uint64_t lv, uint64_t rv) { return lv << rv; }, "shl");
     }
 
     ConstDecl* operator>>(const ConstDecl& lhs, const ConstDecl& rhs)
     {
+	if (!IsShiftCount(rhs))
+	{
+	    return ErrorConst("Invalid number of bits for shr");
+	}
 	return IntegerOrErrorMath(
-	    lhs, rhs, [](uint64_t lv, uint64_t rv) { return lv >> rv; }, "shr");
+	    lhs, rhs, [](int64_t lv, int64_t rv) -> int64_t { return ShiftRight(lv, rv); }, "shr");
     }
 
     template<typename T>
diff --git a/constants.h b/constants.h
index 76169a3..faf2742 100644
--- a/constants.h
+++ b/constants.h
@@ -54,9 +54,9 @@ namespace Constants
 	T value;
     };
 
-    using IntConstDecl = ConstDeclBase<uint64_t, Types::IntegerDecl, CK_IntConstDecl>;
+    using IntConstDecl = ConstDeclBase<int64_t, Types::IntegerDecl, CK_IntConstDecl>;
     using RealConstDecl = ConstDeclBase<double, Types::RealDecl, CK_RealConstDecl>;
-    using CharConstDecl = ConstDeclBase<char, Types::CharDecl, CK_CharConstDecl>;
+    using CharConstDecl = ConstDeclBase<unsigned char, Types::CharDecl, CK_CharConstDecl>;
     using BoolConstDecl = ConstDeclBase<char, Types::BoolDecl, CK_BoolConstDecl>;
 
     class EnumConstDecl : public ConstDecl
diff --git a/parser.cpp b/parser.cpp
index 5f0a451..b3f0b0a 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -2139,7 +2139,7 @@ ExprAST* Parser::ParseIntegerExpr(const Token& token)
     const Location&  loc = token.Loc();
     Types::TypeDecl* type = Types::Get<Types::IntegerDecl>();
 
-    if (val > std::numeric_limits<unsigned int>::max())
+    if (val > std::numeric_limits<unsigned int>::max() || val < std::numeric_limits<int>::min())
     {
 	type = Types::Get<Types::Int64Decl>();
     }
-- 
2.43.0


From 2b30be8d2e67e641c07b28501bf21014bfa816e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:38 +0000
Subject: [PATCH 46/93] fix: powers of constants with negative exponents or bad
 operands, succ and pred past an enumeration's ends

---
 constants.cpp | 63 ++++++++++++++++++++++++++++++---------------------
 1 file changed, 37 insertions(+), 26 deletions(-)

diff --git a/constants.cpp b/constants.cpp
index 9492731..a9bada7 100644
--- a/constants.cpp
+++ b/constants.cpp
@@ -356,29 +356,28 @@ namespace Constants
 	}
 	if (auto enumConst = llvm::dyn_cast<EnumConstDecl>(cd))
 	{
-	    return new EnumConstDecl(enumConst->Type(), enumConst->Loc(), func(enumConst->Value()));
+	    int64_t      v = func(enumConst->Value());
+	    Types::Range r = *enumConst->Type()->GetRange();
+	    if (v < r.Start() || v > r.End())
+	    {
+		return ErrorConst("Value out of range for the enumerated type");
+	    }
+	    return new EnumConstDecl(enumConst->Type(), enumConst->Loc(), v);
 	}
 	return 0;
     }
 
     template<typename T>
-    static T PowerToInt(T x, int y)
+    static T PowerToInt(T x, uint64_t y)
     {
-	if (y == 0)
-	{
-	    return 1;
-	}
-	if (y < 0)
-	{
-	    return 1 / PowerToInt(x, -y);
-	}
-	ICE_IF(y <= 0, "Expect y > 0");
 	T res = 1;
-	do
+	for (; y > 0; y >>= 1, x *= x)
 	{
-	    res *= x;
-	    y--;
-	} while (y > 0);
+	    if (y & 1)
+	    {
+		res *= x;
+	    }
+	}
 	return res;
     }
 
@@ -387,30 +386,42 @@ namespace Constants
 	auto intConst = llvm::dyn_cast<IntConstDecl>(&rhs);
 	if (!intConst)
 	{
-	    return 0;
+	    return ErrorConst("Invalid operand for pow");
+	}
+	int64_t y = intConst->Value();
+	if (y < 0 && IsZero(lhs))
+	{
+	    return ErrorConst("Division by zero");
 	}
-	int y = intConst->Value();
 	if (auto ic = llvm::dyn_cast<IntConstDecl>(&lhs))
 	{
-	    int x = ic->Value();
-	    return new IntConstDecl(ic->Loc(), PowerToInt(x, y));
+	    int64_t x = ic->Value();
+	    if (y < 0)
+	    {
+		// 1 divided by x raised to -y, which is zero unless x is 1 or -1
+		int64_t v = (x == 1 || x == -1) ? x : 0;
+		return new IntConstDecl(ic->Loc(), (y % 2) ? v : v * v);
+	    }
+	    return new IntConstDecl(ic->Loc(), PowerToInt<uint64_t>(x, y));
 	}
 
 	if (auto rc = llvm::dyn_cast<RealConstDecl>(&lhs))
 	{
 	    double x = rc->Value();
-	    return new RealConstDecl(rc->Loc(), PowerToInt(x, y));
+	    return new RealConstDecl(rc->Loc(), (y < 0) ? 1 / PowerToInt(x, 0 - (uint64_t)y) : PowerToInt(x, y));
 	}
-	return 0;
+	return ErrorConst("Invalid operand for pow");
     }
 
     ConstDecl* Power(const ConstDecl& lhs, const ConstDecl& rhs)
     {
-	const RealConstDecl* l = llvm::cast<RealConstDecl>(ToRealConstDecl(&lhs));
-	const RealConstDecl* r = llvm::cast<RealConstDecl>(ToRealConstDecl(&rhs));
-	double               x = l->Value();
-	double               y = r->Value();
-	return new RealConstDecl(l->Loc(), exp(log(x) * y));
+	const RealConstDecl* l = llvm::cast_or_null<RealConstDecl>(ToRealConstDecl(&lhs));
+	const RealConstDecl* r = llvm::cast_or_null<RealConstDecl>(ToRealConstDecl(&rhs));
+	if (!l || !r)
+	{
+	    return ErrorConst("Invalid operand for **");
+	}
+	return new RealConstDecl(l->Loc(), pow(l->Value(), r->Value()));
     }
 
     using ConstArgs = std::vector<const ConstDecl*>;
-- 
2.43.0


From deffa5fcdf7ed22d3593487bf53a1611b1bb66f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:38 +0000
Subject: [PATCH 47/93] fix: constant functions called with wrong or missing
 arguments are reported, not ignored

---
 constants.cpp | 25 ++++++++++++++++++++-----
 constants.h   |  2 ++
 parser.cpp    | 13 +++++++++++--
 3 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/constants.cpp b/constants.cpp
index a9bada7..bfcde5c 100644
--- a/constants.cpp
+++ b/constants.cpp
@@ -478,8 +478,15 @@ namespace Constants
 	      }
 	      return UpdateValueSameType(args[0], [n](int64_t v) { return v - n; });
 	  } },
-	{ "ord", 1, 1, [](const ConstArgs& args) -> const ConstDecl*
-	  { return new IntConstDecl(args[0]->Loc(), ToInt(args[0])); } },
+	{ "ord", 1, 1,
+	  [](const ConstArgs& args) -> const ConstDecl*
+	  {
+	      if (IsOrdinal(args[0]))
+	      {
+	          return new IntConstDecl(args[0]->Loc(), ToInt(args[0]));
+	      }
+	      return 0;
+	  } },
 	{ "length", 1, 1,
 	  [](const ConstArgs& args) -> const ConstDecl*
 	  {
@@ -510,7 +517,8 @@ namespace Constants
 	{ "ln", 1, 1,
 	  [](const ConstArgs& args) -> const ConstDecl*
 	  {
-	      if (auto rc = llvm::dyn_cast<RealConstDecl>(args[0]))
+	      auto rc = llvm::dyn_cast<RealConstDecl>(args[0]);
+	      if (rc && rc->Value() > 0)
 	      {
 	          // Yes, we want log here, log10 is Pascal type log
 	          return new RealConstDecl(rc->Loc(), log(rc->Value()));
@@ -551,7 +559,8 @@ namespace Constants
 	{ "trunc", 1, 1,
 	  [](const ConstArgs& args) -> const ConstDecl*
 	  {
-	      if (auto rc = llvm::dyn_cast<RealConstDecl>(args[0]))
+	      auto rc = llvm::dyn_cast<RealConstDecl>(args[0]);
+	      if (rc && fabs(rc->Value()) < 0x1.0p63)
 	      {
 	          return new IntConstDecl(rc->Loc(), (int64_t)(rc->Value()));
 	      }
@@ -561,7 +570,8 @@ namespace Constants
 	{ "round", 1, 1,
 	  [](const ConstArgs& args) -> const ConstDecl*
 	  {
-	      if (auto rc = llvm::dyn_cast<RealConstDecl>(args[0]))
+	      auto rc = llvm::dyn_cast<RealConstDecl>(args[0]);
+	      if (rc && fabs(rc->Value()) < 0x1.0p63)
 	      {
 	          return new IntConstDecl(rc->Loc(), (int64_t)(round(rc->Value())));
 	      }
@@ -614,6 +624,11 @@ namespace Constants
 	return FindEvaluableFunc(name) != 0;
     }
 
+    bool IsOrdinal(const ConstDecl* c)
+    {
+	return llvm::isa<IntConstDecl, CharConstDecl, EnumConstDecl, BoolConstDecl>(c);
+    }
+
     int64_t ToInt(const ConstDecl* c)
     {
 	if (auto ci = llvm::dyn_cast<IntConstDecl>(c))
diff --git a/constants.h b/constants.h
index faf2742..b60ee8a 100644
--- a/constants.h
+++ b/constants.h
@@ -160,6 +160,8 @@ namespace Constants
     // Yes, evaluable is the "more correct" word.
     bool IsEvaluableFunc(const std::string& name);
 
+    // True if ToInt can be used.
+    bool    IsOrdinal(const ConstDecl* c);
     int64_t ToInt(const ConstDecl* c);
     const ConstDecl* ToRealConstDecl(const ConstDecl* c);
 
diff --git a/parser.cpp b/parser.cpp
index b3f0b0a..729a4d4 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -890,15 +890,24 @@ const Constants::ConstDecl* Parser::ParseConstFunction(const std::string& name)
 	for (;;)
 	{
 	    const Constants::ConstDecl* cd = ParseConstExpr({ Token::Comma, Token::RightParen });
+	    if (!cd)
+	    {
+		return Error("Invalid argument for '" + name + "' in constant expression");
+	    }
 	    args.push_back(cd);
 	    if (AcceptToken(Token::Comma))
 	    {
 		continue;
 	    }
-	    else if (Expect(Token::RightParen, ExpectConsume))
+	    if (!Expect(Token::RightParen, ExpectConsume))
+	    {
+		return 0;
+	    }
+	    if (const Constants::ConstDecl* res = Constants::EvalFunction(name, args))
 	    {
-		return Constants::EvalFunction(name, args);
+		return res;
 	    }
+	    return Error("Invalid call of '" + name + "' in constant expression");
 	}
     }
     return 0;
-- 
2.43.0


From 2f8b21ca66960012ed6e3d6cfcc51cd2a5fc5103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:38 +0000
Subject: [PATCH 48/93] fix: errors inside constant expressions are reported,
 and none of their terms is dropped

---
 parser.cpp | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/parser.cpp b/parser.cpp
index 729a4d4..fad926c 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -831,6 +831,7 @@ Constants::ConstDecl* Parser::ParseConstEval(const Constants::ConstDecl* lhs, co
 	{
 	    return *tmpL / *tmpR;
 	}
+	return Error("Expected integer or real constants for '/' operation");
     }
 
     case Token::Div:
@@ -1177,30 +1178,25 @@ const Constants::ConstDecl* Parser::ParseConstRHS(int exprPrec, const Constants:
 		return 0;
 	    }
 	}
-	lhs = ParseConstEval(lhs, binOp, rhs);
+	if (!(lhs = ParseConstEval(lhs, binOp, rhs)))
+	{
+	    return 0;
+	}
     }
 }
 
 const Constants::ConstDecl* Parser::ParseConstExpr(const TerminatorList& terminators)
 {
     const Location              loc = CurrentToken().Loc();
-    const Constants::ConstDecl* cd;
-
-    do
+    const Constants::ConstDecl* cd = ParseConstTerm(loc);
+    if (cd && !IsOneOf(CurrentToken().GetToken(), terminators))
     {
-	if (!(cd = ParseConstTerm(loc)))
-	{
-	    return 0;
-	}
-
-	if (!IsOneOf(CurrentToken().GetToken(), terminators))
-	{
-	    if (!(cd = ParseConstRHS(0, cd)))
-	    {
-		return 0;
-	    }
-	}
-    } while (!IsOneOf(CurrentToken().GetToken(), terminators));
+	cd = ParseConstRHS(0, cd);
+    }
+    if (cd && !IsOneOf(CurrentToken().GetToken(), terminators))
+    {
+	return Error("Unexpected '" + CurrentToken().TypeStr() + "' in constant expression");
+    }
     return cd;
 }
 
-- 
2.43.0


From 67407a4b1b2e551c512bde12bd6925fff5f5c053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:39 +0000
Subject: [PATCH 49/93] fix: unary operators in constant expressions apply to
 every kind of operand

---
 parser.cpp | 97 ++++++++++++++++++++----------------------------------
 1 file changed, 35 insertions(+), 62 deletions(-)

diff --git a/parser.cpp b/parser.cpp
index fad926c..fc98007 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -134,6 +134,7 @@ public:
     Constants::ConstDecl*       ParseConstEval(const Constants::ConstDecl* lhs, const Token& binOp,
                                                const Constants::ConstDecl* rhs);
     const Constants::ConstDecl* ParseConstTerm(const Location& loc);
+    const Constants::ConstDecl* ParseConstUnary(Token::TokenType op, const Constants::ConstDecl* cd);
     const Constants::ConstDecl* ParseConstFunction(const std::string& name);
     const Constants::ConstDecl* ParseConstSetExpr();
 
@@ -983,12 +984,10 @@ const Constants::ConstDecl* Parser::ParseConstTerm(const Location& loc)
     TRACE();
     Token::TokenType            unaryToken = Token::Unknown;
     const Constants::ConstDecl* cd = 0;
-    int                         mul = 1;
 
     switch (CurrentToken().GetToken())
     {
     case Token::Minus:
-	mul = -1;
     case Token::Plus:
     case Token::Not:
 	unaryToken = CurrentToken().GetToken();
@@ -1015,40 +1014,21 @@ const Constants::ConstDecl* Parser::ParseConstTerm(const Location& loc)
 	break;
 
     case Token::StringLiteral:
-	if (unaryToken != Token::Unknown)
-	{
-	    return Error("Unary + or - not allowed for string constants");
-	}
 	cd = new Constants::StringConstDecl(loc, CurrentToken().GetStrVal());
 	NextToken();
 	break;
 
     case Token::Integer:
-    {
-	uint64_t v = CurrentToken().GetIntVal();
-	if (unaryToken == Token::Not)
-	{
-	    v = ~v;
-	}
-	cd = new Constants::IntConstDecl(loc, v * mul);
+	cd = new Constants::IntConstDecl(loc, CurrentToken().GetIntVal());
 	NextToken();
 	break;
-    }
 
     case Token::Real:
-	if (unaryToken == Token::Not)
-	{
-	    return Error("Unary 'not' is not allowed for real constants");
-	}
-	cd = new Constants::RealConstDecl(loc, CurrentToken().GetRealVal() * mul);
+	cd = new Constants::RealConstDecl(loc, CurrentToken().GetRealVal());
 	NextToken();
 	break;
 
     case Token::Char:
-	if (unaryToken != Token::Unknown)
-	{
-	    return Error("Unary + or - not allowed for char constants");
-	}
 	cd = new Constants::CharConstDecl(loc, (char)CurrentToken().GetIntVal());
 	NextToken();
 	break;
@@ -1075,7 +1055,7 @@ const Constants::ConstDecl* Parser::ParseConstTerm(const Location& loc)
 	{
 	    fc->EnsureSized();
 	}
-	cd = new Constants::IntConstDecl(loc, ty->Size() * mul);
+	cd = new Constants::IntConstDecl(loc, ty->Size());
 	break;
     }
 
@@ -1089,23 +1069,10 @@ const Constants::ConstDecl* Parser::ParseConstTerm(const Location& loc)
 	{
 	    if (llvm::isa<Types::BoolDecl>(ed->Type()))
 	    {
-		uint64_t v = ed->Value();
-		if (unaryToken == Token::Not)
-		{
-		    v = !v;
-		}
-		else if (unaryToken != Token::Unknown)
-		{
-		    return Error("Unary + or - not allowed for bool constants");
-		}
-		cd = new Constants::BoolConstDecl(loc, v);
+		cd = new Constants::BoolConstDecl(loc, ed->Value());
 	    }
 	    else
 	    {
-		if (unaryToken != Token::Unknown)
-		{
-		    return Error("Unary + or - not allowed for enum constants");
-		}
 		cd = new Constants::EnumConstDecl(ed->Type(), loc, ed->Value());
 	    }
 	    NextToken();
@@ -1116,29 +1083,6 @@ const Constants::ConstDecl* Parser::ParseConstTerm(const Location& loc)
 	    {
 		return 0;
 	    }
-	    if (llvm::isa<Constants::BoolConstDecl>(cd) && unaryToken == Token::Not)
-	    {
-		const auto bd = llvm::dyn_cast<Constants::BoolConstDecl>(cd);
-		cd = new Constants::BoolConstDecl(loc, !bd->Value());
-	    }
-
-	    if (mul == -1)
-	    {
-		if (const auto rd = llvm::dyn_cast<Constants::RealConstDecl>(cd))
-		{
-		    ;
-		    cd = new Constants::RealConstDecl(loc, -rd->Value());
-		}
-		else if (const auto id = llvm::dyn_cast<Constants::IntConstDecl>(cd))
-		{
-		    cd = new Constants::IntConstDecl(loc, -id->Value());
-		}
-		else
-		{
-		    return Error("Can't negate the type of " + CurrentToken().GetIdentName() +
-		                 " only integer and real types can be negated");
-		}
-	    }
 	    NextToken();
 	}
 	break;
@@ -1147,7 +1091,36 @@ const Constants::ConstDecl* Parser::ParseConstTerm(const Location& loc)
     default:
 	return 0;
     }
-    return cd;
+    if (!cd || unaryToken == Token::Unknown)
+    {
+	return cd;
+    }
+    return ParseConstUnary(unaryToken, cd);
+}
+
+const Constants::ConstDecl* Parser::ParseConstUnary(Token::TokenType op, const Constants::ConstDecl* cd)
+{
+    if (op == Token::Not)
+    {
+	if (const auto bd = llvm::dyn_cast<Constants::BoolConstDecl>(cd))
+	{
+	    return new Constants::BoolConstDecl(bd->Loc(), !bd->Value());
+	}
+	if (const auto id = llvm::dyn_cast<Constants::IntConstDecl>(cd))
+	{
+	    return new Constants::IntConstDecl(id->Loc(), ~id->Value());
+	}
+	return Error("Unary 'not' is only allowed for boolean and integer constants");
+    }
+    if (const auto rd = llvm::dyn_cast<Constants::RealConstDecl>(cd))
+    {
+	return new Constants::RealConstDecl(rd->Loc(), op == Token::Minus ? -rd->Value() : rd->Value());
+    }
+    if (const auto id = llvm::dyn_cast<Constants::IntConstDecl>(cd))
+    {
+	return new Constants::IntConstDecl(id->Loc(), op == Token::Minus ? 0 - (uint64_t)id->Value() : id->Value());
+    }
+    return Error("Unary + or - is only allowed for integer and real constants");
 }
 
 const Constants::ConstDecl* Parser::ParseConstRHS(int exprPrec, const Constants::ConstDecl* lhs)
-- 
2.43.0


From 89f6c887264675fa6f99f2776f841a408d059f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:39 +0000
Subject: [PATCH 50/93] fix: ranges, sets, schemas and case labels need ordinal
 constants of one type

---
 parser.cpp | 48 +++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 41 insertions(+), 7 deletions(-)

diff --git a/parser.cpp b/parser.cpp
index fc98007..a8e66eb 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -659,6 +659,11 @@ int64_t Parser::ParseConstantValue(Token::TokenType& tt, Types::TypeDecl*& type)
 
 	if (const Constants::ConstDecl* cd = GetConstDecl(name))
 	{
+	    if (!Constants::IsOrdinal(cd))
+	    {
+		tt = Token::Unknown;
+		return ErrorT(int, "Invalid constant, expected char, integer or enum value");
+	    }
 	    type = cd->Type();
 	    result = Constants::ToInt(cd);
 	}
@@ -710,13 +715,17 @@ Types::RangeBaseDecl* Parser::ParseRange(Types::TypeDecl*& type, Token::TokenTyp
 	    return Error("Expected '..' name");
 	}
 
-	if (const Constants::ConstDecl* endC = ParseConstExpr({ endToken, altToken }))
+	if (const Constants::ConstDecl* endC = ParseConstExpr(
+	        { endToken, altToken, Token::End, Token::RightParen, Token::Value }))
 	{
+	    type = startC->Type();
+	    if (!Constants::IsOrdinal(startC) || !Constants::IsOrdinal(endC) || type != endC->Type())
+	    {
+		return Error("Expected ordinal constants of the same type for the range");
+	    }
 	    int64_t start = Constants::ToInt(startC);
 	    int64_t end = Constants::ToInt(endC);
 
-	    type = startC->Type();
-	    ICE_IF(type != endC->Type(), "Expect same type on both sides");
 	    if (end < start)
 	    {
 		return Error("Invalid range specification");
@@ -774,7 +783,7 @@ Types::RangeBaseDecl* Parser::ParseRange(Types::TypeDecl*& type, Token::TokenTyp
 	}
     }
 
-    if (schema)
+    if (schema && startC && Constants::IsOrdinal(startC))
     {
 	std::string name = GetIdentifier(ExpectConsume);
 	if (const VarDef* def = schema->FindVar(name))
@@ -931,12 +940,18 @@ public:
 		        { Token::Comma, Token::RightSquare }))
 		{
 		    Types::TypeDecl* type = cd->Type();
-		    if (type != cde->Type())
+		    if (type != cde->Type() || !Constants::IsOrdinal(cd) || !Constants::IsOrdinal(cde))
 		    {
+			parser.Error("Expected ordinal constants of the same type for the range");
 			return false;
 		    }
 		    int64_t start = Constants::ToInt(cd);
 		    int64_t end = Constants::ToInt(cde);
+		    if (end < start)
+		    {
+			// No elements.
+			return true;
+		    }
 		    cd = new Constants::RangeConstDecl(loc, type, Types::Range(start, end));
 		}
 		else
@@ -944,6 +959,11 @@ public:
 		    return false;
 		}
 	    }
+	    else if (!Constants::IsOrdinal(cd))
+	    {
+		parser.Error("Set elements should be of an ordinal type");
+		return false;
+	    }
 	    values.push_back(cd);
 	    return true;
 	}
@@ -2005,6 +2025,10 @@ Types::TypeDecl* Parser::ExpandSchema(Types::TypeDecl* ty)
     do
     {
 	const Constants::ConstDecl* c = ParseConstExpr({ Token::Comma, Token::RightParen });
+	if (!c || !Constants::IsOrdinal(c))
+	{
+	    return Error("Expected ordinal constant as the value for the schema");
+	}
 	vals.push_back(ToInt(c));
 	AcceptToken(Token::Comma);
     } while (!AcceptToken(Token::RightParen));
@@ -3918,6 +3942,16 @@ ExprAST* Parser::ParseRepeat()
     return 0;
 }
 
+static bool IsCaseLabel(const Constants::ConstDecl* cd)
+{
+    if (!Constants::IsOrdinal(cd))
+    {
+	return false;
+    }
+    int64_t v = Constants::ToInt(cd);
+    return v >= std::numeric_limits<int>::min() && v <= std::numeric_limits<int>::max();
+}
+
 ExprAST* Parser::ParseCaseExpr()
 {
     TRACE();
@@ -3965,7 +3999,7 @@ ExprAST* Parser::ParseCaseExpr()
 	    {
 		return 0;
 	    }
-	    if (!expr->Type() || !expr->Type()->CompatibleType(cd->Type()))
+	    if (!expr->Type() || !expr->Type()->CompatibleType(cd->Type()) || !IsCaseLabel(cd))
 	    {
 		return Error("Case label does not match the type of the case expression");
 	    }
@@ -3989,7 +4023,7 @@ ExprAST* Parser::ParseCaseExpr()
 		{
 		    return 0;
 		}
-		if (type != cd->Type())
+		if (type != cd->Type() || !IsCaseLabel(cd))
 		{
 		    return Error("Expected case labels to have same type");
 		}
-- 
2.43.0


From a81c9aee214b35791e8c18eacff26250c86cc979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:39 +0000
Subject: [PATCH 51/93] fix: an initialiser with a constant of more than 32
 bits is a 64-bit integer

---
 parser.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parser.cpp b/parser.cpp
index a8e66eb..ad3aa66 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -3039,7 +3039,13 @@ ExprAST* Parser::ConstDeclToExpr(const Location& loc, Types::TypeDecl* ty, const
 	    }
 	    return Error("Real constant initializer from incompatible type");
 	}
-	return new IntegerExprAST(loc, Constants::ToInt(c), c->Type());
+	int64_t          value = Constants::ToInt(c);
+	Types::TypeDecl* type = c->Type();
+	if (value > std::numeric_limits<unsigned int>::max() || value < std::numeric_limits<int>::min())
+	{
+	    type = Types::Get<Types::Int64Decl>();
+	}
+	return new IntegerExprAST(loc, value, type);
     }
     if (auto rc = llvm::dyn_cast<Constants::RealConstDecl>(c))
     {
-- 
2.43.0


From 96d295d5ba5aa2d9e1b70ba0c66669f6f6314151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:39 +0000
Subject: [PATCH 52/93] fix: >< has the precedence of the other adding
 operators

---
 token.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/token.cpp b/token.cpp
index 21858bf..b51e386 100644
--- a/token.cpp
+++ b/token.cpp
@@ -135,7 +135,7 @@ const TokenEntry tokenTable[] = {
     { Token::Xor, true, 10, "xor" },
     { Token::Shr, true, 40, "shr" },
     { Token::Shl, true, 40, "shl" },
-    { Token::SymDiff, false, 40, "><" },
+    { Token::SymDiff, false, 10, "><" },
     { Token::Pow, true, 50, "pow" },
     { Token::In, true, 5, "in" },
     { Token::Plus, false, 10, "+" },
-- 
2.43.0


From f7ac4147514a7a83e9895caa549e64b9d57f8950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:26 +0000
Subject: [PATCH 53/93] fix: the capacity of a string type is from 1 to 255

---
 parser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser.cpp b/parser.cpp
index ad3aa66..22e5aed 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -1913,7 +1913,9 @@ unsigned Parser::ParseStringSize(Token::TokenType end)
 {
     if (const Constants::ConstDecl* size = ParseConstExpr({ end }))
     {
-	if (auto is = llvm::dyn_cast<Constants::IntConstDecl>(size))
+	auto is = llvm::dyn_cast<Constants::IntConstDecl>(size);
+	// The current length is stored in one byte.
+	if (is && is->Value() > 0 && is->Value() <= 255)
 	{
 	    return is->Value();
 	}
-- 
2.43.0


From 12a24dda65bd1e277ad73ac1897372e9177c4818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:30 +0000
Subject: [PATCH 54/93] fix: a subrange beyond the integers is a subrange of
 the 64-bit integers

---
 parser.cpp | 4 ++++
 types.cpp  | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/parser.cpp b/parser.cpp
index 22e5aed..e06568b 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -730,6 +730,10 @@ Types::RangeBaseDecl* Parser::ParseRange(Types::TypeDecl*& type, Token::TokenTyp
 	    {
 		return Error("Invalid range specification");
 	    }
+	    if (start < std::numeric_limits<int>::min() || end > std::numeric_limits<int>::max())
+	    {
+		type = Types::Get<Types::Int64Decl>();
+	    }
 	    return new Types::RangeDecl(new Types::Range(start, end), type);
 	}
     }
diff --git a/types.cpp b/types.cpp
index 176065c..af3942f 100644
--- a/types.cpp
+++ b/types.cpp
@@ -498,6 +498,10 @@ namespace Types
 	{
 	    return ty;
 	}
+	if (Type() == TK_LongInt)
+	{
+	    return baseType->CompatibleType(ty);
+	}
 	return 0;
     }
 
@@ -507,6 +511,10 @@ namespace Types
 	{
 	    return ty;
 	}
+	if (Type() == TK_LongInt)
+	{
+	    return baseType->AssignableType(ty);
+	}
 	return 0;
     }
 
-- 
2.43.0


From a8ec43600016da321c07d16a2b080113ab682c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:30 +0000
Subject: [PATCH 55/93] fix: comments may follow each other directly

---
 lexer.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/lexer.cpp b/lexer.cpp
index 249a9fc..d3b323d 100644
--- a/lexer.cpp
+++ b/lexer.cpp
@@ -252,20 +252,19 @@ Token Lexer::GetToken()
     int             ch = CurChar();
     const Location& w = Where();
 
-    do
+    for (;;)
     {
-	while (isspace(ch))
+	if (isspace(ch))
 	{
 	    ch = NextChar();
 	}
-
-	if (ch == '{')
+	else if (ch == '{')
 	{
 	    while ((ch = NextChar()) != EOF && ch != '}')
 		;
 	    ch = NextChar();
 	}
-	if (ch == '(' && PeekChar() == '*')
+	else if (ch == '(' && PeekChar() == '*')
 	{
 	    NextChar(); /* Skip first * */
 	    while ((ch = NextChar()) != EOF && !(ch == '*' && PeekChar() == ')'))
@@ -274,15 +273,18 @@ Token Lexer::GetToken()
 	    ch = NextChar();
 	}
 	// C++ style comments.
-	if (ch == '/' && PeekChar() == '/')
+	else if (ch == '/' && PeekChar() == '/')
 	{
 	    do
 	    {
 		ch = NextChar();
 	    } while (ch != '\n' && ch != EOF);
 	}
-
-    } while (isspace(ch));
+	else
+	{
+	    break;
+	}
+    }
 
     // EOF -> return now...
     if (ch == EOF)
-- 
2.43.0


From 15c832d8b0b8ca43f6bcc195ef256fbf2614f89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:30 +0000
Subject: [PATCH 56/93] fix: malformed tokens are diagnosed, and do not stop
 the lexer

---
 lexer.cpp | 4 ++--
 token.cpp | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lexer.cpp b/lexer.cpp
index d3b323d..47ca844 100644
--- a/lexer.cpp
+++ b/lexer.cpp
@@ -421,7 +421,7 @@ Token Lexer::GetToken()
     {
 	return NumberToken();
     }
-    // We really shouldn't get here!
-    std::cerr << "ch=" << ch << std::endl;
+    // Not part of any token, but it has to be passed to find the next one.
+    NextChar();
     return Token(Token::Unknown, w);
 }
diff --git a/token.cpp b/token.cpp
index b51e386..897d29a 100644
--- a/token.cpp
+++ b/token.cpp
@@ -187,6 +187,8 @@ const TokenEntry tokenTable[] = {
     { Token::SizeOf, true, -1, "sizeof" },
     { Token::Identifier, false, -1, "identifier" },
     { Token::Unknown, false, -1, "Unknown" },
+    { Token::Overflow, false, -1, "invalid number" },
+    { Token::UntermString, false, -1, "unterminated string" },
     { Token::EndOfFile, false, -1, "EOF" },
 };
 
-- 
2.43.0


From 28bdfa7eaaa32d221bcaebb3c90287b490f96e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:59 +0000
Subject: [PATCH 57/93] fix: malformed and overflowing numbers are errors

---
 lexer.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/lexer.cpp b/lexer.cpp
index 47ca844..9327423 100644
--- a/lexer.cpp
+++ b/lexer.cpp
@@ -1,6 +1,8 @@
 #include "lexer.h"
 
 #include <cctype>
+#include <cerrno>
+#include <cmath>
 #include <cstdlib>
 #include <iostream>
 #include <limits>
@@ -48,7 +50,7 @@ static Token ConvertFloat(const std::string& num, const Location& w)
     double v = 0;
     char*  endPtr = 0;
     v = strtod(num.c_str(), &endPtr);
-    if (*endPtr != 0)
+    if (*endPtr != 0 || std::isinf(v))
     {
 	return Token(Token::Overflow, w);
     }
@@ -59,6 +61,7 @@ template<typename T, typename FN>
 static T SafeConvert(const std::string& num, bool& err, FN fn, int base)
 {
     err = false;
+    errno = 0;
     char* endPtr = 0;
     T     v = fn(num.c_str(), &endPtr, base);
     if (*endPtr != 0 || (v == std::numeric_limits<T>::max() && errno == ERANGE))
@@ -79,7 +82,7 @@ static Token ConvertInt(const std::string& num, const Location& w, int base)
     return Token(Token::Integer, w, v);
 }
 
-bool ValidForBase(char c, int base)
+static bool ValidForBase(int c, int base)
 {
     if (base == 10)
 	return isdigit(c);
@@ -91,7 +94,7 @@ bool ValidForBase(char c, int base)
 	return true;
     }
 
-    c = std::tolower(static_cast<unsigned char>(c));
+    c = std::tolower(c);
     // We have base > 10, as base = 10 has already been done.
     return (isdigit(c) || (c >= 'a' && c < 'a' + (base - 10)));
 }
@@ -102,10 +105,12 @@ Token Lexer::NumberToken()
     const Location& w = Where();
     std::string     num;
     int             base = 10;
+    bool            based = false;
 
     if (ch == '$')
     {
 	base = 16;
+	based = true;
 	ch = NextChar();
     }
     num = static_cast<char>(ch);
@@ -127,12 +132,13 @@ Token Lexer::NumberToken()
 	    ch = NextChar();
 	    while (ValidForBase(ch, base) || ch == '#')
 	    {
-		if (ch == '#' && base == 10)
+		if (ch == '#' && !based)
 		{
 		    ch = NextChar();
 		    bool err;
+		    based = true;
 		    base = SafeConvert<int>(num, err, strtol, 10);
-		    if (err || base < 2 || base > 36)
+		    if (err || base < 2 || base > 36 || !ValidForBase(ch, base))
 		    {
 			return Token(Token::Unknown, w);
 		    }
@@ -180,11 +186,11 @@ Token Lexer::NumberToken()
 	}
 
 	// If the next char is a dot or an 'e'/'E', we have a floating point number.
-	if (ch == '.' && state != Fraction && base != 16)
+	if (ch == '.' && state == Intpart && !based)
 	{
 	    state = Fraction;
 	}
-	else if (state != Exponent && (ch == 'E' || ch == 'e'))
+	else if (state != Exponent && !based && (ch == 'E' || ch == 'e'))
 	{
 	    state = Exponent;
 	}
-- 
2.43.0


From 97e30103c5b452ed43a11a5e3f6b132fdaa514ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:59 +0000
Subject: [PATCH 58/93] fix: a character 255 in the source is not the end of
 the file

---
 lexer.cpp  | 2 +-
 source.cpp | 4 ++--
 source.h   | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lexer.cpp b/lexer.cpp
index 9327423..1c0d753 100644
--- a/lexer.cpp
+++ b/lexer.cpp
@@ -234,7 +234,7 @@ Token Lexer::StringToken()
     NextChar();
     if (str.size() == 1)
     {
-	return Token(Token::Char, w, (uint64_t)str[0]);
+	return Token(Token::Char, w, (uint64_t)(unsigned char)str[0]);
     }
     return Token(Token::StringLiteral, w, str);
 }
diff --git a/source.cpp b/source.cpp
index 8f057bd..2a8e1b4 100644
--- a/source.cpp
+++ b/source.cpp
@@ -1,9 +1,9 @@
 #include "source.h"
 #include <iostream>
 
-char FileSource::Get()
+int FileSource::Get()
 {
-    char ch = input.get();
+    int ch = input.get();
     if (ch == '\n')
     {
 	lineNo++;
diff --git a/source.h b/source.h
index 46c34c6..c149d6f 100644
--- a/source.h
+++ b/source.h
@@ -11,7 +11,7 @@ class Source
 {
 public:
     virtual ~Source() {}
-    virtual char Get() = 0;
+    virtual int Get() = 0;
     virtual operator bool() const = 0;
     virtual operator Location() const = 0;
     virtual void PrintSource(uint32_t line) {}
@@ -21,7 +21,7 @@ class FileSource : public Source
 {
 public:
     FileSource(const std::string& name) : name(name), input(name), column(1), lineNo(1) { lineStart[1] = 0; }
-    char Get() override;
+    int Get() override;
     operator bool() const override { return (bool)input; }
     operator Location() const override { return Location(name, lineNo, column); }
     void PrintSource(uint32_t line) override;
-- 
2.43.0


From ac4754ec20ce1f2d09b3e6a7f2519835a22dafc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:53 +0000
Subject: [PATCH 59/93] fix: ':=' and 'not' are not binary operators

---
 token.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/token.cpp b/token.cpp
index 897d29a..b55c452 100644
--- a/token.cpp
+++ b/token.cpp
@@ -129,7 +129,7 @@ const TokenEntry tokenTable[] = {
     { Token::And_Then, true, 40, "and_then" },
     { Token::Or, true, 10, "or" },
     { Token::Or_Else, true, 10, "or_else" },
-    { Token::Not, true, 60, "not" },
+    { Token::Not, true, -1, "not" },
     { Token::Div, true, 40, "div" },
     { Token::Mod, true, 40, "mod" },
     { Token::Xor, true, 10, "xor" },
@@ -143,7 +143,7 @@ const TokenEntry tokenTable[] = {
     { Token::Multiply, false, 40, "*" },
     { Token::Divide, false, 40, "/" },
     { Token::Power, false, 50, "**" },
-    { Token::Assign, false, 2, ":=" },
+    { Token::Assign, false, -1, ":=" },
     { Token::LessThan, false, 5, "<" },
     { Token::LessOrEqual, false, 5, "<=" },
     { Token::GreaterOrEqual, false, 5, ">=" },
-- 
2.43.0


From d8381cd456dc1fd42790bf2d35a195603a21a2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:53 +0000
Subject: [PATCH 60/93] fix: '@' before an expression is rejected rather than
 losing the name that follows

---
 parser.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/parser.cpp b/parser.cpp
index e06568b..99c538c 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -2283,10 +2283,7 @@ ExprAST* Parser::ParseUnaryOp()
 	{
 	    return Error("Expected function name");
 	}
-	if (const auto funcDef = llvm::dyn_cast_or_null<const FuncDef>(nameStack.Find(nm)))
-	{
-	    (void)funcDef;
-	}
+	return Error("Taking the address of '" + nm + "' is not supported");
     }
 
     if (ExprAST* rhs = ParseExprElement())
-- 
2.43.0


From 5572f0e43a3a24e8954cff8f0e5d7eb209ad7062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:09 +0000
Subject: [PATCH 61/93] fix: statements in repeat must be separated, and end
 does not end them

---
 parser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser.cpp b/parser.cpp
index 99c538c..b51ca8f 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -3936,7 +3936,10 @@ ExprAST* Parser::ParseRepeat()
 	if (ExprAST* stmt = ParseStatement())
 	{
 	    v.push_back(stmt);
-	    AcceptToken(Token::Semicolon);
+	    if (CurrentToken().GetToken() != Token::Until && !Expect(Token::Semicolon, ExpectConsume))
+	    {
+		return 0;
+	    }
 	}
 	else
 	{
-- 
2.43.0


From 396020a0360fff25ecbb1a499915a4405d125368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:32 +0000
Subject: [PATCH 62/93] fix: a variable alone is not a statement

---
 parser.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser.cpp b/parser.cpp
index b51ca8f..42fc851 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -3544,7 +3544,8 @@ PrototypeAST* Parser::ParsePrototype(Parser::NamePolicy nmPolicy)
 ExprAST* Parser::ParseStatement()
 {
     TRACE();
-    switch (CurrentToken().GetToken())
+    const Token::TokenType start = CurrentToken().GetToken();
+    switch (start)
     {
     case Token::Begin:
     {
@@ -3572,6 +3573,10 @@ ExprAST* Parser::ParseStatement()
 		    return Error("Invalid assignment");
 		}
 	    }
+	    else if (start == Token::Identifier && !llvm::isa<CallExprAST, BuiltinExprAST>(expr))
+	    {
+		return Error("Expected ':=' after variable");
+	    }
 	    return expr;
 	}
 	break;
-- 
2.43.0


From 0d56607f8ad4223d7fe3cfce8a977e35becb90ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:33 +0000
Subject: [PATCH 63/93] fix: every compound type is seen as one, so equal
 conformant arrays compare equal

---
 types.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/types.cpp b/types.cpp
index af3942f..272ce62 100644
--- a/types.cpp
+++ b/types.cpp
@@ -280,13 +280,22 @@ namespace Types
 	switch (e->getKind())
 	{
 	case TK_Array:
+	case TK_SchArray:
 	case TK_String:
+	case TK_DynArray:
+	case TK_Range:
+	case TK_DynRange:
+	case TK_SchRange:
+	case TK_Enum:
+	case TK_Boolean:
 	case TK_Pointer:
 	case TK_Field:
+	case TK_Function:
 	case TK_FuncPtr:
 	case TK_File:
 	case TK_Text:
 	case TK_Set:
+	case TK_SchSet:
 	    return true;
 	default:
 	    break;
-- 
2.43.0


From da7acdbaa136bbc72bd8f03628e4a959af29ede9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:42 +0000
Subject: [PATCH 64/93] fix: only the function being defined has a result to
 assign

---
 parser.cpp | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/parser.cpp b/parser.cpp
index 42fc851..8c28b2b 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -213,11 +213,27 @@ private:
     std::string               moduleName;
     int                       errCnt;
     Stack<const NamedObject*> nameStack;
+    // Functions that we are currently inside.
+    std::vector<const PrototypeAST*> functions;
     std::vector<ExprAST*>     ast;
 };
 
 using NameWrapper = StackWrapper<const NamedObject*>;
 
+// Keeps track of the functions whose body is being parsed.
+class FunctionWrapper
+{
+public:
+    FunctionWrapper(std::vector<const PrototypeAST*>& f, const PrototypeAST* proto) : functions(f)
+    {
+	functions.push_back(proto);
+    }
+    ~FunctionWrapper() { functions.pop_back(); }
+
+private:
+    std::vector<const PrototypeAST*>& functions;
+};
+
 static std::string ShortName(const std::string& name)
 {
     std::string            shortname = name;
@@ -2782,6 +2798,7 @@ ExprAST* Parser::ParseVariableExpr(const NamedObject* def)
     Types::TypeDecl* type = def->Type();
     ICE_IF(!type, "Expect type here...");
 
+    const PrototypeAST* proto = 0;
     if (const auto w = llvm::dyn_cast<WithDef>(def))
     {
 	return llvm::dyn_cast<AddressableAST>(w->Actual());
@@ -2790,7 +2807,8 @@ ExprAST* Parser::ParseVariableExpr(const NamedObject* def)
     {
 	Types::ClassDecl*      od = llvm::dyn_cast<Types::ClassDecl>(type);
 	Types::MemberFuncDecl* mf = od->GetMembFunc(m->Index());
-	type = mf->Proto()->Type();
+	proto = mf->Proto();
+	type = proto->Type();
     }
     else if (const auto ty = llvm::dyn_cast<TypeDef>(def))
     {
@@ -2801,7 +2819,8 @@ ExprAST* Parser::ParseVariableExpr(const NamedObject* def)
     }
     if (auto fd = llvm::dyn_cast<Types::FunctionDecl>(type))
     {
-	type = fd->Proto()->Type();
+	proto = fd->Proto();
+	type = proto->Type();
     }
     if (auto cd = llvm::dyn_cast<ConstDef>(def))
     {
@@ -2819,7 +2838,15 @@ ExprAST* Parser::ParseVariableExpr(const NamedObject* def)
     {
 	return Error("Expected variable");
     }
-    return new VariableExprAST(CurrentToken().Loc(), def->Name(), type);
+    // The result has a variable only inside the function, and only under its own name.
+    for (const PrototypeAST* f : functions)
+    {
+	if (f == proto && proto->ResName() == def->Name())
+	{
+	    return new VariableExprAST(CurrentToken().Loc(), def->Name(), type);
+	}
+    }
+    return Error("Can't assign to '" + def->Name() + "' here");
 }
 
 static ExprAST* CreateSetExprFromSetConst(const Constants::SetConstDecl* set)
@@ -3712,7 +3739,8 @@ FunctionAST* Parser::ParseDefinition(int level)
 	return Error("Duplicate defintion of " + proto->Name());
     }
 
-    NameWrapper wrapper(nameStack);
+    NameWrapper     wrapper(nameStack);
+    FunctionWrapper function(functions, proto);
     if (proto->HasSelf())
     {
 	ICE_IF(!proto->BaseObj(), "Expect base object!");
-- 
2.43.0


From 33360af3630008d76786f515e6ba83a8cb4ef99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:42 +0000
Subject: [PATCH 65/93] fix: the completion of a forward declaration has the
 same parameters

---
 parser.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/parser.cpp b/parser.cpp
index 8c28b2b..a7c56a7 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -3363,10 +3363,19 @@ void Parser::CheckProtoMatch(const PrototypeAST* proto, const std::string& funcN
 
     for (size_t i = 0; i < args.size(); i++)
     {
-	if (!proto->Args()[i + offset].Type()->AssignableType(args[i].Type()))
+	const VarDef& arg = proto->Args()[i + offset];
+	if (*arg.Type() != *args[i].Type())
 	{
 	    Error("Argument type mismatch for " + funcName + ":" + args[i].Name());
 	}
+	std::string declared = arg.Name();
+	std::string given = args[i].Name();
+	strlower(declared);
+	strlower(given);
+	if (declared != given || arg.IsRef() != args[i].IsRef() || arg.IsProtected() != args[i].IsProtected())
+	{
+	    Error("Argument mismatch for " + funcName + ":" + args[i].Name());
+	}
     }
     if (proto->Type() != resType)
     {
-- 
2.43.0


From cae4b270584e523e371968bf8e5087d41eb7c606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:33 +0000
Subject: [PATCH 66/93] fix: a forward declaration is completed only by the
 same kind of routine in the same scope

---
 parser.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/parser.cpp b/parser.cpp
index a7c56a7..3cd9b41 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -51,7 +51,8 @@ public:
     enum class NamePolicy
     {
 	Unnamed,
-	Named
+	Named,
+	Definition // Named, and may complete a forward declaration.
     };
 
     Parser(Source& source);
@@ -3405,7 +3406,7 @@ PrototypeAST* Parser::ParsePrototype(Parser::NamePolicy nmPolicy)
     // Consume "function" or "procedure"
     NextToken();
     std::string funcName = "$$unnamed";
-    if (nmPolicy == NamePolicy::Named)
+    if (nmPolicy != NamePolicy::Unnamed)
     {
 	// Get function name.
 	funcName = GetIdentifier(ExpectConsume);
@@ -3449,12 +3450,18 @@ PrototypeAST* Parser::ParsePrototype(Parser::NamePolicy nmPolicy)
 	    }
 	}
 	// See if it's a "forward declaration"?
-	if (const NamedObject* def = nameStack.Find(funcName))
+	// It is, if declared in this very scope.
+	const NamedObject* def = nmPolicy == NamePolicy::Definition ? nameStack.FindTopLevel(funcName) : 0;
+	if (def)
 	{
 	    const auto fnDef = llvm::dyn_cast_or_null<const FuncDef>(def);
 	    if (fnDef && fnDef->Proto() && fnDef->Proto()->IsForward())
 	    {
 		fwdProto = fnDef->Proto();
+		if (isFunction == llvm::isa<Types::VoidDecl>(fwdProto->Type()))
+		{
+		    return Error("'" + funcName + "' was declared forward as the other of function and procedure");
+		}
 		fwdProto->SetIsForward(false);
 		// If this is a semicolon, then return current prototype, and be done with it.
 		if (CurrentToken().GetToken() == Token::Semicolon)
@@ -3684,7 +3691,7 @@ FunctionAST* Parser::ParseDefinition(int level)
 {
     TRACE();
 
-    PrototypeAST* proto = ParsePrototype(NamePolicy::Named);
+    PrototypeAST* proto = ParsePrototype(NamePolicy::Definition);
     if (!proto || !Expect(Token::Semicolon, ExpectConsume))
     {
 	return 0;
-- 
2.43.0


From 9fb9138dd0731a652e19c8872a54cf8ceef69f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:33 +0000
Subject: [PATCH 67/93] fix: var or protected after a comma in a parameter list
 does not apply to the names before it

---
 parser.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/parser.cpp b/parser.cpp
index 3cd9b41..bb93752 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -3500,13 +3500,16 @@ PrototypeAST* Parser::ParsePrototype(Parser::NamePolicy nmPolicy)
 	    }
 	    else
 	    {
-		if (AcceptToken(Token::Protected))
+		if (names.empty())
 		{
-		    flags |= VarDef::Flags::Protected;
-		}
-		if (AcceptToken(Token::Var))
-		{
-		    flags |= VarDef::Flags::Reference;
+		    if (AcceptToken(Token::Protected))
+		    {
+			flags |= VarDef::Flags::Protected;
+		    }
+		    if (AcceptToken(Token::Var))
+		    {
+			flags |= VarDef::Flags::Reference;
+		    }
 		}
 
 		std::string arg = GetIdentifier(ExpectConsume);
-- 
2.43.0


From 8778d8f4da5c053ec1865a089d100612f859b07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:51 +0000
Subject: [PATCH 68/93] fix: a named function result is known when its forward
 declaration is completed

---
 parser.cpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/parser.cpp b/parser.cpp
index bb93752..f72b55e 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -3706,10 +3706,9 @@ FunctionAST* Parser::ParseDefinition(int level)
 
     const NamedObject* def = nameStack.Find(name);
     const auto         fnDef = llvm::dyn_cast_or_null<const FuncDef>(def);
-    std::string        shortname;
+    const std::string  shortname = ShortName(name);
     if (!(fnDef && fnDef->Proto() && fnDef->Proto() == proto))
     {
-	shortname = ShortName(name);
 	// Allow "inline" keyword. Currently ignored...
 	if (AcceptToken(Token::Inline))
 	{
@@ -3731,11 +3730,6 @@ FunctionAST* Parser::ParseDefinition(int level)
 	{
 	    Types::TypeDecl* ty = new Types::FunctionDecl(proto);
 	    nmObj = new FuncDef(name, ty, proto);
-	    // Procedure = void function. Do not introdce a result name.
-	    if (llvm::isa<Types::VoidDecl>(proto->Type()))
-	    {
-		shortname = "";
-	    }
 	    if (!nameStack.Add(nmObj))
 	    {
 		return Error("Name '" + name + "' already exists...");
@@ -3767,9 +3761,8 @@ FunctionAST* Parser::ParseDefinition(int level)
 	ExpandWithNames(proto->BaseObj(), v, 0);
     }
 
-    if (shortname != "" && proto->ResName() != shortname)
+    if (!llvm::isa<Types::VoidDecl>(proto->Type()) && proto->ResName() != shortname)
     {
-	ICE_IF(!nmObj, "Named object expected");
 	VarDef* vd = new VarDef(proto->ResName(), proto->Type());
 	nameStack.Add(vd);
     }
-- 
2.43.0


From bd3732d0a5ab354fe8ec1c97a97d7997fc9575ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:59 +0000
Subject: [PATCH 69/93] fix: string, set and forward declared pointer types can
 carry an initial value

---
 types.cpp | 1 -
 types.h   | 2 ++
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/types.cpp b/types.cpp
index 272ce62..1fa0664 100644
--- a/types.cpp
+++ b/types.cpp
@@ -245,7 +245,6 @@ namespace Types
 	    return new PointerDecl(fwd);
 	}
 
-	ICE_IF(forward, "Shouldn't be forward declared pointer here");
 	return new PointerDecl(SubType());
     }
 
diff --git a/types.h b/types.h
index 5876fc4..c8b420f 100644
--- a/types.h
+++ b/types.h
@@ -706,6 +706,7 @@ namespace Types
 	void            UpdateSubtype(TypeDecl* ty);
 	bool            SameAs(const TypeDecl* ty) const override;
 	const TypeDecl* CompatibleType(const TypeDecl* ty) const override;
+	TypeDecl*       Clone() const override { return new SetDecl(range, SubType()); }
 
     protected:
 	llvm::Type*   GetLlvmType() const override;
@@ -727,6 +728,7 @@ namespace Types
 	void            DoDump() const override;
 	const TypeDecl* CompatibleType(const TypeDecl* ty) const override;
 	int             Capacity() const { return Ranges()[0]->GetRange()->Size() - 2; }
+	TypeDecl*       Clone() const override { return new StringDecl(Capacity()); }
     };
 
     class ComplexDecl : public RecordDecl
-- 
2.43.0


From 7514a6cc30514dbc4d4cae43b536d2c2adfc7397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:34 +0000
Subject: [PATCH 70/93] fix: range and boolean types can carry an initial value

---
 types.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/types.h b/types.h
index c8b420f..2f9174b 100644
--- a/types.h
+++ b/types.h
@@ -278,6 +278,7 @@ namespace Types
 	size_t      RangeSize() const override { return range->Size(); }
 	TypeKind    Type() const override { return baseType->Type(); }
 	Range*      GetRange() const override { return range; }
+	TypeDecl*   Clone() const override { return new RangeDecl(range, SubType()); }
 
     private:
 	Range* range;
@@ -406,8 +407,9 @@ namespace Types
     public:
 	BoolDecl() : EnumDecl(TK_Boolean, std::vector<std::string>{ "false", "true" }, this) {}
 	void        DoDump() const override;
-	bool        SameAs(const TypeDecl* ty) const override { return ty == this; }
+	bool        SameAs(const TypeDecl* ty) const override { return classof(ty); }
 	static bool classof(const TypeDecl* e) { return e->getKind() == TK_Boolean; }
+	TypeDecl*   Clone() const override { return new BoolDecl(); }
 
     protected:
 	llvm::Type*   GetLlvmType() const override;
-- 
2.43.0


From 51757ef30b055751e200e43e129cd828bda6e755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:41 +0000
Subject: [PATCH 71/93] fix: an initial value must be of the type and range of
 what it initialises

---
 parser.cpp | 77 +++++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 68 insertions(+), 9 deletions(-)

diff --git a/parser.cpp b/parser.cpp
index f72b55e..6de9679 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -3060,6 +3060,34 @@ ExprAST* Parser::ParseSetExpr(Types::TypeDecl* setType)
 
 ExprAST* Parser::ConstDeclToExpr(const Location& loc, Types::TypeDecl* ty, const Constants::ConstDecl* c)
 {
+    if (IsStringLike(ty) && ty->Type() != Types::TypeDecl::TK_Char)
+    {
+	auto        aty = llvm::dyn_cast<Types::ArrayDecl>(ty);
+	std::string value;
+	if (auto sc = llvm::dyn_cast<Constants::StringConstDecl>(c))
+	{
+	    value = sc->Value();
+	}
+	else if (auto cc = llvm::dyn_cast<Constants::CharConstDecl>(c))
+	{
+	    value = std::string(1, cc->Value());
+	}
+	else
+	{
+	    return Error("Incompatible type");
+	}
+	if (!aty || aty->Ranges().size() != 1 || !llvm::isa<Types::RangeDecl>(aty->Ranges()[0]))
+	{
+	    return Error("Incompatible type");
+	}
+	auto   sd = llvm::dyn_cast<Types::StringDecl>(ty);
+	size_t size = sd ? sd->Capacity() : aty->Ranges()[0]->RangeSize();
+	if (value.size() > size)
+	{
+	    return Error("String is too long for its type");
+	}
+	return new StringExprAST(loc, value, Types::Get<Types::StringDecl>(255));
+    }
     if (IsIntegral(c->Type()))
     {
 	if (llvm::isa<Types::RealDecl>(ty))
@@ -3070,13 +3098,23 @@ ExprAST* Parser::ConstDeclToExpr(const Location& loc, Types::TypeDecl* ty, const
 	    }
 	    return Error("Real constant initializer from incompatible type");
 	}
-	int64_t          value = Constants::ToInt(c);
-	Types::TypeDecl* type = c->Type();
-	if (value > std::numeric_limits<unsigned int>::max() || value < std::numeric_limits<int>::min())
+	if (!IsIntegral(ty) || !ty->AssignableType(c->Type()))
 	{
-	    type = Types::Get<Types::Int64Decl>();
+	    return Error("Incompatible type");
 	}
-	return new IntegerExprAST(loc, value, type);
+	int64_t value = Constants::ToInt(c);
+	int64_t low = std::numeric_limits<int>::min();
+	int64_t high = std::numeric_limits<unsigned int>::max();
+	if (auto r = llvm::dyn_cast<Types::RangeDecl>(ty))
+	{
+	    low = r->Start();
+	    high = r->End();
+	}
+	if (ty->Type() != Types::TypeDecl::TK_LongInt && (value < low || value > high))
+	{
+	    return Error("Value out of range");
+	}
+	return new IntegerExprAST(loc, value, ty);
     }
     if (auto rc = llvm::dyn_cast<Constants::RealConstDecl>(c))
     {
@@ -3088,10 +3126,18 @@ ExprAST* Parser::ConstDeclToExpr(const Location& loc, Types::TypeDecl* ty, const
     }
     if (auto sc = llvm::dyn_cast<Constants::StringConstDecl>(c))
     {
-	return new StringExprAST(loc, sc->Value(), sc->Type());
+	if (!llvm::isa<Types::CharDecl>(ty) || sc->Value().size() != 1)
+	{
+	    return Error("Incompatible type");
+	}
+	return new IntegerExprAST(loc, static_cast<unsigned char>(sc->Value()[0]), ty);
     }
     if (auto cd = llvm::dyn_cast<Constants::CompoundConstDecl>(c))
     {
+	if (!ty->AssignableType(cd->Type()))
+	{
+	    return Error("Incompatible type");
+	}
 	return cd->Value();
     }
     return Error("Unexpected constant type");
@@ -3231,10 +3277,21 @@ ExprAST* Parser::ParseInitValue(Types::TypeDecl* ty)
     TRACE();
 
     const Location loc = CurrentToken().Loc();
-    if (llvm::isa<Types::SetDecl>(ty))
+    if (auto sty = llvm::dyn_cast<Types::SetDecl>(ty))
     {
 	if (ExprAST* e = ParseSetExpr(ty))
 	{
+	    auto constant = [&](ExprAST* v) {
+		return llvm::isa<IntegerExprAST>(v) && sty->SubType()->AssignableType(v->Type());
+	    };
+	    for (auto v : llvm::dyn_cast<SetExprAST>(e)->Values())
+	    {
+		auto r = llvm::dyn_cast<RangeExprAST>(v);
+		if (r ? !constant(r->LowExpr()) || !constant(r->HighExpr()) : !constant(v))
+		{
+		    return Error("Expected constant elements of the type of the set");
+		}
+	    }
 	    return new InitValueAST(loc, ty, { e });
 	}
 	return 0;
@@ -3260,7 +3317,8 @@ ExprAST* Parser::ParseInitValue(Types::TypeDecl* ty)
 		    return Error("Incompatible type");
 		}
 		NextToken();
-		return new InitValueAST(loc, ty, { ConstDeclToExpr(loc, ty, cd) });
+		ExprAST* e = ConstDeclToExpr(loc, ty, cd);
+		return e ? new InitValueAST(loc, ty, { e }) : nullptr;
 	    }
 	    return Error("Unexpected identifier");
 	}
@@ -3294,7 +3352,8 @@ ExprAST* Parser::ParseInitValue(Types::TypeDecl* ty)
                                                           Token::RightSquare, Token::Otherwise,
                                                           Token::RightParen }))
     {
-	return new InitValueAST(loc, ty, { ConstDeclToExpr(loc, ty, cd) });
+	ExprAST* e = ConstDeclToExpr(loc, ty, cd);
+	return e ? new InitValueAST(loc, ty, { e }) : nullptr;
     }
     return 0;
 }
-- 
2.43.0


From 919dbbed0db77ad436a1ec052989223ca71689e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:41 +0000
Subject: [PATCH 72/93] fix: initial values of arrays and records name only
 existing elements, and may leave others out

---
 expr.cpp   | 15 +++++++++++----
 parser.cpp | 47 ++++++++++++++++++++++++++++++++++++++---------
 2 files changed, 49 insertions(+), 13 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index c6ae611..82adbc5 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -4588,6 +4588,11 @@ llvm::Value* InitArrayAST::CodeGen()
 	    ICE("Unknown initializer kind");
 	}
     }
+    auto arrty = llvm::dyn_cast<llvm::ArrayType>(type->LlvmType());
+    if (!otherwise)
+    {
+	otherwise = llvm::Constant::getNullValue(arrty->getElementType());
+    }
     for (auto& i : initArr)
     {
 	if (!i)
@@ -4596,8 +4601,6 @@ llvm::Value* InitArrayAST::CodeGen()
 	}
     }
 
-    auto arrty = llvm::dyn_cast<llvm::ArrayType>(type->LlvmType());
-
     llvm::Constant* init = llvm::ConstantArray::get(arrty,
                                                     llvm::ArrayRef<llvm::Constant*>(initArr.data(), size));
     return init;
@@ -4631,7 +4634,12 @@ llvm::Value* InitRecordAST::CodeGen()
 {
     auto fty = llvm::dyn_cast<Types::FieldCollection>(type);
     ICE_IF(!fty, "Expected field collection type here");
-    std::vector<llvm::Constant*> initArr(fty->FieldCount());
+    auto                         ty = llvm::dyn_cast<llvm::StructType>(type->LlvmType());
+    std::vector<llvm::Constant*> initArr;
+    for (auto elemTy : ty->elements())
+    {
+	initArr.push_back(llvm::Constant::getNullValue(elemTy));
+    }
 
     for (auto v : values)
     {
@@ -4641,7 +4649,6 @@ llvm::Value* InitRecordAST::CodeGen()
 	    initArr[e] = c;
 	}
     }
-    auto ty = llvm::dyn_cast<llvm::StructType>(type->LlvmType());
 
     llvm::Constant* init = llvm::ConstantStruct::get(ty, initArr);
     return init;
diff --git a/parser.cpp b/parser.cpp
index 6de9679..2c919f4 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -3157,7 +3157,16 @@ public:
     {
 	if (parser.AcceptToken(Token::Otherwise))
 	{
+	    if (otherwise)
+	    {
+		return parser.ErrorT(bool, "Only one otherwise is allowed");
+	    }
+	    otherwise = true;
 	    ExprAST* e = parser.ParseInitValue(type->SubType());
+	    if (!e)
+	    {
+		return false;
+	    }
 	    list.push_back({ e });
 	    return true;
 	}
@@ -3189,7 +3198,17 @@ public:
 		end = Constants::ToInt(cd);
 		hasEnd = true;
 	    }
-	    parser.Expect(Token::Colon, ExpectConsume);
+	    Types::RangeBaseDecl* index = type->Ranges()[0];
+	    Types::Range*         range = index->GetRange();
+	    if (!index->AssignableType(cd->Type()) || value < range->Start() || value > range->End() ||
+	        (hasEnd && (end < value || end > range->End())))
+	    {
+		return parser.ErrorT(bool, "Initializer index is not in the array");
+	    }
+	    if (!parser.Expect(Token::Colon, ExpectConsume))
+	    {
+		return false;
+	    }
 	    ExprAST* e = parser.ParseInitValue(type->SubType());
 	    if (!e)
 	    {
@@ -3212,6 +3231,7 @@ public:
 private:
     std::vector<ArrayInit> list;
     Types::ArrayDecl*      type;
+    bool                   otherwise = false;
 };
 
 class CCRecordInitList : public ListConsumer
@@ -3225,7 +3245,8 @@ public:
 
     bool Consume(Parser& parser) override
     {
-	std::vector<int> elems;
+	std::vector<int>        elems;
+	const Types::FieldDecl* fty = nullptr;
 	do
 	{
 	    std::string fieldName = parser.GetIdentifier(ExpectConsume);
@@ -3233,13 +3254,12 @@ public:
 	    {
 		return false;
 	    }
-	    int                     elem = type->Element(fieldName);
-	    const Types::FieldDecl* fty = nullptr;
+	    int elem = type->Element(fieldName);
 	    if (elem >= 0)
 	    {
 		if (fty)
 		{
-		    if (fty != type->GetElement(elem))
+		    if (fty->SubType() != type->GetElement(elem)->SubType())
 		    {
 			return parser.ErrorT(bool, "Should be same types for field initializers");
 		    }
@@ -3256,12 +3276,17 @@ public:
 	    }
 	    if (!parser.AcceptToken(Token::Comma))
 	    {
-		parser.Expect(Token::Colon, ExpectConsume);
-		if (ExprAST* e = parser.ParseInitValue(fty->SubType()))
+		if (!parser.Expect(Token::Colon, ExpectConsume))
 		{
-		    list.push_back({ elems, e });
-		    return true;
+		    return false;
 		}
+		ExprAST* e = parser.ParseInitValue(fty->SubType());
+		if (!e)
+		{
+		    return false;
+		}
+		list.push_back({ elems, e });
+		return true;
 	    }
 	} while (true);
     }
@@ -3324,6 +3349,10 @@ ExprAST* Parser::ParseInitValue(Types::TypeDecl* ty)
 	}
 	if (AcceptToken(Token::LeftSquare))
 	{
+	    if (arrTy->Ranges().size() != 1 || !llvm::isa<Types::RangeDecl>(arrTy->Ranges()[0]))
+	    {
+		return Error("Expected array with one dimension of known size");
+	    }
 	    CCArrayInitList cca(arrTy);
 	    if (ParseSeparatedList(*this, cca))
 	    {
-- 
2.43.0


From b029ebba771d279c391f381ac57218a2f9c5adb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:20 +0000
Subject: [PATCH 73/93] fix: field, method and parameter names are the same in
 any letter case

---
 parser.cpp | 16 ++++++----------
 schema.cpp |  4 ++--
 types.cpp  |  6 +++---
 utils.h    |  8 ++++++++
 4 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/parser.cpp b/parser.cpp
index 2c919f4..6e65611 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -1683,7 +1683,7 @@ Types::VariantDecl* Parser::ParseVariantDecl(Types::FieldDecl*& markerField)
 			{
 			    for (auto f : fields)
 			    {
-				if (n == f->Name())
+				if (samename(n, f->Name()))
 				{
 				    // TODO: Track location.
 				    return Error("Duplicate field name '" + n + "' in record");
@@ -1827,7 +1827,7 @@ bool Parser::ParseFields(std::vector<Types::FieldDecl*>& fields, Types::VariantD
 		    {
 			for (auto f : fields)
 			{
-			    if (n == f->Name())
+			    if (samename(n, f->Name()))
 			    {
 				// TODO: Needs better location.
 				return ErrorT(bool, "Duplicate field name '" + n + "' in record");
@@ -2842,7 +2842,7 @@ ExprAST* Parser::ParseVariableExpr(const NamedObject* def)
     // The result has a variable only inside the function, and only under its own name.
     for (const PrototypeAST* f : functions)
     {
-	if (f == proto && proto->ResName() == def->Name())
+	if (f == proto && samename(proto->ResName(), def->Name()))
 	{
 	    return new VariableExprAST(CurrentToken().Loc(), def->Name(), type);
 	}
@@ -3457,11 +3457,7 @@ void Parser::CheckProtoMatch(const PrototypeAST* proto, const std::string& funcN
 	{
 	    Error("Argument type mismatch for " + funcName + ":" + args[i].Name());
 	}
-	std::string declared = arg.Name();
-	std::string given = args[i].Name();
-	strlower(declared);
-	strlower(given);
-	if (declared != given || arg.IsRef() != args[i].IsRef() || arg.IsProtected() != args[i].IsProtected())
+	if (!samename(arg.Name(), args[i].Name()) || arg.IsRef() != args[i].IsRef() || arg.IsProtected() != args[i].IsProtected())
 	{
 	    Error("Argument mismatch for " + funcName + ":" + args[i].Name());
 	}
@@ -3470,7 +3466,7 @@ void Parser::CheckProtoMatch(const PrototypeAST* proto, const std::string& funcN
     {
 	Error("Result type mismatch for " + funcName);
     }
-    if (!llvm::isa<Types::VoidDecl>(proto->Type()) && proto->ResName() != resName)
+    if (!llvm::isa<Types::VoidDecl>(proto->Type()) && !samename(proto->ResName(), resName))
     {
 	Error("Result name mismatch for " + funcName);
     }
@@ -3849,7 +3845,7 @@ FunctionAST* Parser::ParseDefinition(int level)
 	ExpandWithNames(proto->BaseObj(), v, 0);
     }
 
-    if (!llvm::isa<Types::VoidDecl>(proto->Type()) && proto->ResName() != shortname)
+    if (!llvm::isa<Types::VoidDecl>(proto->Type()) && !samename(proto->ResName(), shortname))
     {
 	VarDef* vd = new VarDef(proto->ResName(), proto->Type());
 	nameStack.Add(vd);
diff --git a/schema.cpp b/schema.cpp
index eb96764..4b29b1d 100644
--- a/schema.cpp
+++ b/schema.cpp
@@ -17,7 +17,7 @@ namespace Types
     {
 	for (const auto& v : vars)
 	{
-	    if (v.Name() == name)
+	    if (samename(v.Name(), name))
 	    {
 		return &v;
 	    }
@@ -30,7 +30,7 @@ namespace Types
 	int index = 0;
 	for (auto a : vars)
 	{
-	    if (a.Name() == nm)
+	    if (samename(a.Name(), nm))
 	    {
 		return index;
 	    }
diff --git a/types.cpp b/types.cpp
index 1fa0664..9615689 100644
--- a/types.cpp
+++ b/types.cpp
@@ -696,7 +696,7 @@ namespace Types
 		    return i;
 		}
 	    }
-	    if (f->Name() == name)
+	    if (samename(f->Name(), name))
 	    {
 		return i;
 	    }
@@ -905,7 +905,7 @@ namespace Types
 	    bool found = false;
 	    for (auto& j : membfuncs)
 	    {
-		if (j->Proto()->Name() == i->Proto()->Name())
+		if (samename(j->Proto()->Name(), i->Proto()->Name()))
 		{
 		    j = i;
 		    found = true;
@@ -948,7 +948,7 @@ namespace Types
     {
 	for (size_t i = 0; i < membfuncs.size(); i++)
 	{
-	    if (membfuncs[i]->Proto()->Name() == nm)
+	    if (samename(membfuncs[i]->Proto()->Name(), nm))
 	    {
 		return i;
 	    }
diff --git a/utils.h b/utils.h
index e23b3a1..97a63ed 100644
--- a/utils.h
+++ b/utils.h
@@ -9,6 +9,14 @@ inline void strlower(std::string& str)
     std::transform(str.begin(), str.end(), str.begin(), ::tolower);
 }
 
+// Names are the same whichever case their letters are.
+inline bool samename(std::string a, std::string b)
+{
+    strlower(a);
+    strlower(b);
+    return a == b;
+}
+
 std::string GetPath(const std::string& fileName);
 
 [[noreturn]] void InternalCompilerError(const char* file, int line, const std::string& msg);
-- 
2.43.0


From bec199c01d4280a4f8704c93abfd97f97f6002f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:49 +0000
Subject: [PATCH 74/93] fix: a variant part without a tag field has no field
 named after its type

---
 parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser.cpp b/parser.cpp
index 6e65611..fc4f818 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -1585,6 +1585,10 @@ Types::VariantDecl* Parser::ParseVariantDecl(Types::FieldDecl*& markerField)
 	AssertToken(Token::Identifier);
 	AssertToken(Token::Colon);
     }
+    else
+    {
+	marker.clear();
+    }
     Types::TypeDecl* markerTy = ParseType("", NoForwarding);
     if (!markerTy)
     {
-- 
2.43.0


From e1190aa4471e5cf80fa0e84b2759baf8cd4f4b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:49 +0000
Subject: [PATCH 75/93] fix: field names are distinct across the variants of a
 record

---
 parser.cpp | 43 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/parser.cpp b/parser.cpp
index fc4f818..ea45c25 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -1722,6 +1722,39 @@ Types::VariantDecl* Parser::ParseVariantDecl(Types::FieldDecl*& markerField)
     return new Types::VariantDecl(variants);
 }
 
+// Adds the names of the fields, including those in variants, and returns the first that is already there.
+static std::string AddFieldNames(const Types::FieldCollection* fc, std::vector<std::string>& names)
+{
+    if (!fc)
+    {
+	return "";
+    }
+    for (int i = 0; i < fc->FieldCount(); i++)
+    {
+	const Types::FieldDecl* fd = fc->GetElement(i);
+	std::string             name = fd->Name();
+	if (name.empty())
+	{
+	    std::string dup = AddFieldNames(llvm::dyn_cast<Types::RecordDecl>(fd->SubType()), names);
+	    if (!dup.empty())
+	    {
+		return dup;
+	    }
+	    continue;
+	}
+	for (const auto& n : names)
+	{
+	    if (samename(n, name))
+	    {
+		return name;
+	    }
+	}
+	names.push_back(name);
+    }
+    auto rd = llvm::dyn_cast<Types::RecordDecl>(fc);
+    return rd ? AddFieldNames(rd->Variant(), names) : "";
+}
+
 bool Parser::ParseFields(std::vector<Types::FieldDecl*>& fields, Types::VariantDecl*& variant,
                          Token::TokenType type)
 {
@@ -1859,6 +1892,16 @@ bool Parser::ParseFields(std::vector<Types::FieldDecl*>& fields, Types::VariantD
 	    }
 	}
     } while (!AcceptToken(Token::End));
+    if (variant)
+    {
+	std::vector<std::string> names;
+	const Types::RecordDecl  rec(fields, variant);
+	std::string              dup = AddFieldNames(&rec, names);
+	if (!dup.empty())
+	{
+	    return ErrorT(bool, "Duplicate field name '" + dup + "' in record");
+	}
+    }
     return true;
 }
 
-- 
2.43.0


From 190af92587b660c8e0b3d1276d7aabac34122678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:00 +0000
Subject: [PATCH 76/93] fix: fields of nested variant parts are found, and with
 reaches them at their place

---
 parser.cpp | 83 +++++++++++++++++++++++++++---------------------------
 1 file changed, 42 insertions(+), 41 deletions(-)

diff --git a/parser.cpp b/parser.cpp
index ea45c25..b5bc1ab 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -85,6 +85,8 @@ public:
     ExprAST*         ParsePointerExpr(ExprAST* expr, Types::TypeDecl*& type);
     ExprAST*         FindVariant(ExprAST* expr, Types::TypeDecl*& type, int fc, Types::VariantDecl* v,
                                  const std::string& name);
+    ExprAST*         FindField(ExprAST* expr, Types::TypeDecl*& type, Types::RecordDecl* rd,
+                               const std::string& name);
     ExprAST*         ParseFieldExpr(ExprAST* expr, Types::TypeDecl*& type);
     VariableExprAST* ParseStaticMember(const TypeDef* def, Types::TypeDecl*& type);
 
@@ -2543,50 +2545,51 @@ ExprAST* Parser::MakeSelfCall(ExprAST* self, Types::MemberFuncDecl* mf, Types::C
 ExprAST* Parser::FindVariant(ExprAST* expr, Types::TypeDecl*& type, int fc, Types::VariantDecl* v,
                              const std::string& name)
 {
-    ExprAST* e = 0;
-    int      elem = v->Element(name);
-    if (elem >= 0)
+    for (int i = 0; i < v->FieldCount(); i++)
     {
-	const Types::FieldDecl* fd = v->GetElement(elem);
-	type = fd->SubType();
-	e = new VariantFieldExprAST(CurrentToken().Loc(), expr, fc, type);
-	// If name is empty, we have a made up struct. Dig another level down.
+	const Types::FieldDecl* fd = v->GetElement(i);
+	ExprAST*                e = new VariantFieldExprAST(CurrentToken().Loc(), expr, fc, fd->SubType());
 	if (fd->Name() == "")
 	{
-	    auto r = llvm::dyn_cast<Types::RecordDecl>(fd->SubType());
-	    ICE_IF(!r, "Expect record declarataion");
-	    elem = r->Element(name);
-	    if (elem >= 0)
+	    e = FindField(e, type, llvm::dyn_cast<Types::RecordDecl>(fd->SubType()), name);
+	    if (e)
 	    {
-		type = r->GetElement(elem)->SubType();
-		e = new FieldExprAST(CurrentToken().Loc(), e, elem, type);
+		return e;
 	    }
 	}
-	return e;
+	else if (samename(fd->Name(), name))
+	{
+	    type = fd->SubType();
+	    return e;
+	}
     }
+    return 0;
+}
 
-    for (int i = 0; i < v->FieldCount(); i++)
+ExprAST* Parser::FindField(ExprAST* expr, Types::TypeDecl*& type, Types::RecordDecl* rd,
+                           const std::string& name)
+{
+    ICE_IF(!rd, "Expected record declaration");
+    for (int i = 0; i < rd->FieldCount(); i++)
     {
-	const Types::FieldDecl* fd = v->GetElement(i);
+	const Types::FieldDecl* fd = rd->GetElement(i);
+	ExprAST*                e = new FieldExprAST(CurrentToken().Loc(), expr, i, fd->SubType());
+	// If name is empty, we have a made up struct. Dig another level down.
 	if (fd->Name() == "")
 	{
-	    e = new VariantFieldExprAST(CurrentToken().Loc(), expr, fc, type);
-	    const auto r = llvm::dyn_cast<Types::RecordDecl>(fd->SubType());
-	    ICE_IF(!r, "Expect record declarataion");
-	    if ((elem = r->Element(name)) >= 0)
-	    {
-		e = new FieldExprAST(CurrentToken().Loc(), e, elem, type);
-	    }
-	    if (r->Variant())
+	    e = FindField(e, type, llvm::dyn_cast<Types::RecordDecl>(fd->SubType()), name);
+	    if (e)
 	    {
-		if ((e = FindVariant(e, type, r->FieldCount(), r->Variant(), name)))
-		{
-		    return e;
-		}
+		return e;
 	    }
 	}
+	else if (samename(fd->Name(), name))
+	{
+	    type = fd->SubType();
+	    return e;
+	}
     }
-    return 0;
+    return rd->Variant() ? FindVariant(expr, type, rd->FieldCount(), rd->Variant(), name) : 0;
 }
 
 ExprAST* Parser::ParseFieldExpr(ExprAST* expr, Types::TypeDecl*& type)
@@ -2650,17 +2653,7 @@ ExprAST* Parser::ParseFieldExpr(ExprAST* expr, Types::TypeDecl*& type)
     else if (auto rd = llvm::dyn_cast<Types::RecordDecl>(type))
     {
 	typedesc = "record";
-	int elem = rd->Element(name);
-	if (elem >= 0)
-	{
-	    type = rd->GetElement(elem)->SubType();
-	    e = new FieldExprAST(CurrentToken().Loc(), expr, elem, type);
-	}
-	else
-	{
-	    fc = rd->FieldCount();
-	    v = rd->Variant();
-	}
+	e = FindField(expr, type, rd, name);
     }
     else
     {
@@ -4273,7 +4266,15 @@ void Parser::ExpandWithNames(const Types::FieldCollection* fields, ExprAST* v, i
 	{
 	    auto rd = llvm::dyn_cast<Types::RecordDecl>(ty);
 	    ICE_IF(!rd, "Expected record declarataion here!");
-	    ExprAST* vv = new VariantFieldExprAST(CurrentToken().Loc(), v, parentCount, ty);
+	    ExprAST* vv;
+	    if (llvm::isa<Types::RecordDecl>(fields))
+	    {
+		vv = new FieldExprAST(CurrentToken().Loc(), v, i, ty);
+	    }
+	    else
+	    {
+		vv = new VariantFieldExprAST(CurrentToken().Loc(), v, parentCount, ty);
+	    }
 	    ExpandWithNames(rd, vv, 0);
 	    if (rd->Variant())
 	    {
-- 
2.43.0


From 6fe0e7fa872798c3aa02d1ad0b795ea0ef49c3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:12 +0000
Subject: [PATCH 77/93] fix: a routine that is declared but not defined is an
 error

---
 parser.cpp | 38 +++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/parser.cpp b/parser.cpp
index b5bc1ab..2e54a09 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -111,6 +111,7 @@ public:
     VarDeclAST*   ParseVarDecls();
     BlockAST*     ParseBlock(Location& endLoc);
     bool          CheckLabels();
+    bool          CheckDefined();
     FunctionAST*  ParseDefinition(int level);
     PrototypeAST* ParsePrototype(NamePolicy nmPolicy);
     bool          ParseProgram(ParserType type);
@@ -3814,6 +3815,37 @@ bool Parser::CheckLabels()
     return true;
 }
 
+// Routines that are declared at the current level must be defined before the level ends.
+bool Parser::CheckDefined()
+{
+    // If something was wrong with the definition, that has been reported.
+    if (errCnt)
+    {
+	return true;
+    }
+    for (const auto& n : nameStack.GetLevel())
+    {
+	auto fd = llvm::dyn_cast<FuncDef>(n.second);
+	if (fd && !fd->Proto()->Function())
+	{
+	    return ErrorT(bool, "'" + fd->Name() + "' is declared, but not defined");
+	}
+	auto td = llvm::dyn_cast<TypeDef>(n.second);
+	if (auto cd = td ? llvm::dyn_cast<Types::ClassDecl>(td->Type()) : nullptr)
+	{
+	    for (size_t i = 0; i < cd->MembFuncCount(); i++)
+	    {
+		const PrototypeAST* proto = cd->GetMembFunc(i)->Proto();
+		if (!proto->Function())
+		{
+		    return ErrorT(bool, "'" + td->Name() + "." + proto->Name() + "' is declared, but not defined");
+		}
+	    }
+	}
+    }
+    return true;
+}
+
 FunctionAST* Parser::ParseDefinition(int level)
 {
     TRACE();
@@ -3956,7 +3988,7 @@ FunctionAST* Parser::ParseDefinition(int level)
 	    Location endLoc;
 	    ICE_IF(body, "Multiple body declarations for function?");
 
-	    if (!(body = ParseBlock(endLoc)) || !CheckLabels() || !Expect(Token::Semicolon, ExpectConsume))
+	    if (!CheckDefined() || !(body = ParseBlock(endLoc)) || !CheckLabels() || !Expect(Token::Semicolon, ExpectConsume))
 	    {
 		return 0;
 	    }
@@ -4903,7 +4935,7 @@ ExprAST* Parser::ParseUnit(ParserType type)
 	{
 	    const Location loc = CurrentToken().Loc();
 	    Location       endLoc;
-	    BlockAST*      body = ParseBlock(endLoc);
+	    BlockAST*      body = CheckDefined() ? ParseBlock(endLoc) : 0;
 	    if (!body || !CheckLabels())
 	    {
 		return 0;
@@ -4925,7 +4957,7 @@ ExprAST* Parser::ParseUnit(ParserType type)
 		return Error("Unexpected 'end' token");
 	    }
 	    AssertToken(Token::End);
-	    if (!Expect(Token::Period, ExpectConsume))
+	    if (!Expect(Token::Period, ExpectConsume) || !CheckDefined())
 	    {
 		return 0;
 	    }
-- 
2.43.0


From 12b44a5b0319e25d29fce52e83859531864fa7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:42 +0000
Subject: [PATCH 78/93] fix: units that use each other in a circle are rejected

---
 parser.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/parser.cpp b/parser.cpp
index 2e54a09..bf12742 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -4759,8 +4759,19 @@ ExprAST* Parser::ParseUses()
 	    {
 		return Error("Could not open " + fileName);
 	    }
+	    // The units that use each other up to here.
+	    static std::vector<std::string> usedBy;
+	    for (const auto& u : usedBy)
+	    {
+		if (u == fileName)
+		{
+		    return Error("Unit '" + unitname + "' uses itself");
+		}
+	    }
+	    usedBy.push_back(fileName);
 	    Parser   p(source);
 	    ExprAST* e = p.Parse(ParserType::Unit);
+	    usedBy.pop_back();
 	    errCnt += p.GetErrors();
 	    if (Expect(Token::Semicolon, ExpectConsume))
 	    {
-- 
2.43.0


From a86fe2f375ff00183388b08bd7d803d53c81c11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:03 +0000
Subject: [PATCH 79/93] fix: a unit used in several places is part of the
 program once

---
 parser.cpp | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/parser.cpp b/parser.cpp
index bf12742..8d69955 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -19,6 +19,7 @@
 #include <cmath>
 #include <iostream>
 #include <limits>
+#include <map>
 #include <sstream>
 #include <string>
 #include <vector>
@@ -117,6 +118,7 @@ public:
     bool          ParseProgram(ParserType type);
     void          ParseLabels();
     ExprAST*      ParseUses();
+    bool          AddInterface(UnitAST* unit);
     ExprAST*      ParseUnit(ParserType type);
     bool          ParseInterface(InterfaceList& iList);
     void          ParseImports();
@@ -4734,6 +4736,18 @@ bool Parser::ParseProgram(ParserType type)
     return false;
 }
 
+bool Parser::AddInterface(UnitAST* unit)
+{
+    for (auto i : unit->Interface().List())
+    {
+	if (!nameStack.Add(i.second) && nameStack.FindTopLevel(i.first) != i.second)
+	{
+	    return ErrorT(bool, "Name '" + i.first + "' already exists");
+	}
+    }
+    return true;
+}
+
 ExprAST* Parser::ParseUses()
 {
     AssertToken(Token::Uses);
@@ -4754,7 +4768,17 @@ ExprAST* Parser::ParseUses()
 	    strlower(unitname);
 	    std::string path = GetPath(CurrentToken().Loc().FileName());
 	    std::string fileName = path + "/" + unitname + ".pas";
-	    FileSource  source(fileName);
+	    // A unit is part of the program once, however many times it is used.
+	    static std::map<std::string, UnitAST*> units;
+	    if (auto it = units.find(fileName); it != units.end())
+	    {
+		if (!Expect(Token::Semicolon, ExpectConsume) || !AddInterface(it->second))
+		{
+		    return 0;
+		}
+		return new UnitAST(CurrentToken().Loc(), {}, 0, {});
+	    }
+	    FileSource source(fileName);
 	    if (!source)
 	    {
 		return Error("Could not open " + fileName);
@@ -4777,12 +4801,10 @@ ExprAST* Parser::ParseUses()
 	    {
 		if (auto ua = llvm::dyn_cast_or_null<UnitAST>(e))
 		{
-		    for (auto i : ua->Interface().List())
+		    units[fileName] = ua;
+		    if (!AddInterface(ua))
 		    {
-			if (!nameStack.Add(i.second))
-			{
-			    return 0;
-			}
+			return 0;
 		    }
 		}
 		return e;
-- 
2.43.0


From d2967d6687905685683ff36a4097f302472ffb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:00 +0000
Subject: [PATCH 80/93] fix: predefined types and constants can be declared
 again by the program

---
 parser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser.cpp b/parser.cpp
index 8d69955..0bf3043 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -5020,6 +5020,11 @@ ExprAST* Parser::Parse(ParserType type)
     VarDef output("output", Types::Get<Types::TextDecl>(), VarDef::Flags::External);
     nameStack.Add(new VarDef(input));
     nameStack.Add(new VarDef(output));
+    // The predefined names have a level of their own, so that the program can use them for something
+    // else - but its variables are linked with the runtime, so these two have to remain.
+    nameStack.NewLevel();
+    nameStack.Add(new VarDef(input));
+    nameStack.Add(new VarDef(output));
     std::vector<VarDef> varList{ input, output };
     ast.push_back(new VarDeclAST(Location(), varList));
 
-- 
2.43.0


From 80d23b34e287a7733115e80e6eac31d24157e600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:58 +0000
Subject: [PATCH 81/93] fix: visit the control variable of a for and the bounds
 of an array slice

---
 expr.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/expr.cpp b/expr.cpp
index 82adbc5..8434ede 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -2483,6 +2483,7 @@ void ForExprAST::DoDump() const
 
 void ForExprAST::accept(ASTVisitor& v)
 {
+    variable->accept(v);
     start->accept(v);
     if (end)
     {
@@ -4700,6 +4701,7 @@ void ArraySliceAST::DoDump() const
 void ArraySliceAST::accept(ASTVisitor& v)
 {
     expr->accept(v);
+    range->accept(v);
     v.visit(this);
 }
 
-- 
2.43.0


From c1dbac1745c4ef71371c2fc1bee9e1f8759933b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:58 +0000
Subject: [PATCH 82/93] fix: index a dynamic array with the width of its bounds
 and of the index

---
 expr.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 8434ede..3f20ab1 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -3915,8 +3915,17 @@ llvm::Value* RangeReduceAST::CodeGen()
     llvm::Type* ty = index->getType();
     if (auto dr = llvm::dyn_cast<Types::DynRangeDecl>(range))
     {
-	llvm::Value* low = variables.FindTopLevel(dr->LowName());
-	low = builder.CreateLoad(ty, low, "low");
+	llvm::Type*  intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
+	llvm::Value* low = variables.Find(dr->LowName());
+	low = builder.CreateLoad(intTy, low, "low");
+	if (ty->getPrimitiveSizeInBits() < intTy->getPrimitiveSizeInBits())
+	{
+	    index = builder.CreateZExt(index, intTy, "zext");
+	}
+	else
+	{
+	    low = builder.CreateSExt(low, ty, "low.ext");
+	}
 	index = builder.CreateSub(index, low);
     }
     else
-- 
2.43.0


From 2d6e9c153c1b5f6403b82fb110a0f638641272cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:58 +0000
Subject: [PATCH 83/93] fix: closures capture the variables of the function
 that declares them

---
 callgraph.cpp | 287 +++++++++++++++++++++++++++++---------------------
 expr.cpp      |  49 +++++++++
 expr.h        |   5 +
 namedobject.h |   1 +
 types.h       |   2 +
 5 files changed, 225 insertions(+), 119 deletions(-)

diff --git a/callgraph.cpp b/callgraph.cpp
index b3dae00..071ab49 100644
--- a/callgraph.cpp
+++ b/callgraph.cpp
@@ -2,6 +2,7 @@
 #include "expr.h"
 #include "trace.h"
 #include "visitor.h"
+#include <algorithm>
 #include <map>
 #include <set>
 
@@ -86,180 +87,228 @@ void AddClosureArg(FunctionAST* fn, std::vector<ExprAST*>& args)
     }
 }
 
-class UpdateCallVisitor : public ASTVisitor
-{
-public:
-    UpdateCallVisitor(const PrototypeAST* p) : proto(p) {}
-    virtual void visit(ExprAST* expr);
-
-private:
-    const PrototypeAST* proto;
-};
-
-/* This is used to update internal calls within the nest of functions, where we need
- * to pass variables from the outer scope to the inner scope
+/* This finds which variables of its enclosing functions each function needs - because it uses them
+ * itself, or because a function that it refers to does - and adds those to the arguments and calls.
  */
-void UpdateCallVisitor::visit(ExprAST* expr)
+class ClosureBuilder : public ASTVisitor
 {
-    if (auto call = llvm::dyn_cast<CallExprAST>(expr))
+    // A variable is known by the function it belongs to and its place among the declarations there.
+    struct Variable
     {
-	if (call->Proto()->Function() == proto->Function() && call->Args().size() != proto->Args().size())
-	{
-	    if (verbosity)
-	    {
-		std::cerr << "Adding arguments for function " << call->Proto()->Name() << std::endl;
-	    }
-	    AddClosureArg(proto->Function(), call->Args());
-	}
-    }
-}
+	FunctionAST* owner;
+	size_t       index;
+	bool operator==(const Variable& rhs) const { return owner == rhs.owner && index == rhs.index; }
+    };
 
-using VarMap = std::map<std::string, VarDef>;
-using VarSet = std::set<std::string>;
-using CallSet = std::set<const FunctionAST*>;
+    struct FuncInfo
+    {
+	std::vector<VarDef>           decls;
+	std::vector<VariableExprAST*> uses;
+	std::vector<FunctionAST*>     refs;
+	std::vector<Variable>         captured;
+    };
 
-class CallGraphClosureCollector : public CallGraphVisitor
-{
 public:
-    void Caller(FunctionAST* f) override { CollectUseData(f); }
-    void VarDecl(VarDeclAST* v) override { AddVarDecls(v->Vars(), v->Function()); }
+    void visit(ExprAST* a) override;
+    void Build(ExprAST* ast);
 
-    void AddVarDecls(const std::vector<VarDef>& vars, FunctionAST* f);
-    void CollectUseData(FunctionAST* f);
+private:
+    Variable      Find(FunctionAST* f, const std::string& name);
+    const VarDef& Def(const Variable& v) { return info[v.owner].decls[v.index]; }
+    bool          Capture(FunctionAST* f, const Variable& v);
+    bool          IsHidden(const Variable& v);
+    void          Rename(const Variable& v, const std::string& name);
 
-    std::map<const FunctionAST*, VarSet>  useMap;
-    std::map<const FunctionAST*, VarMap>  declMap;
-    std::map<const FunctionAST*, CallSet> callMap;
+    std::map<FunctionAST*, FuncInfo> info;
+    std::vector<FunctionAST*>        functions;
+    std::vector<CallExprAST*>        calls;
 };
 
-class CollectUses : public ASTVisitor
+void ClosureBuilder::visit(ExprAST* a)
 {
-public:
-    void visit(ExprAST* a) override
+    if (auto f = llvm::dyn_cast<FunctionAST>(a))
     {
-	if (auto v = llvm::dyn_cast<VariableExprAST>(a))
+	functions.push_back(f);
+	FuncInfo& fi = info[f];
+	for (const VarDef& d : f->Proto()->Args())
 	{
-	    if (auto tc = llvm::dyn_cast<TypeCastAST>(v))
+	    fi.decls.push_back(d);
+	    if (auto dty = llvm::dyn_cast<Types::DynArrayDecl>(d.Type()))
 	    {
-		if (auto e = llvm::dyn_cast<VariableExprAST>(tc->Expr()))
-		{
-		    v = e;
-		}
-		else
-		{
-		    return;
-		}
+		Types::DynRangeDecl* dr = dty->Range();
+		fi.decls.push_back(VarDef(dr->LowName(), dr->SubType()));
+		fi.decls.push_back(VarDef(dr->HighName(), dr->SubType()));
 	    }
-	    ICE_IF(v->Name().empty(), "Expect a name");
-	    uses.insert(v->Name());
 	}
-	if (auto c = llvm::dyn_cast<CallExprAST>(a))
+	if (!llvm::isa<Types::VoidDecl>(f->Proto()->Type()))
 	{
-	    if (auto fe = llvm::dyn_cast<FunctionExprAST>(c->Callee()))
-	    {
-		if (auto fn = fe->Proto()->Function())
-		{
-		    calls.insert(fn);
-		}
-	    }
+	    fi.decls.push_back(VarDef(f->Proto()->ResName(), f->Proto()->Type()));
 	}
     }
-    CallSet calls;
-    VarSet  uses;
-};
+    else if (auto d = llvm::dyn_cast<VarDeclAST>(a))
+    {
+	if (FunctionAST* f = d->Function())
+	{
+	    FuncInfo& fi = info[f];
+	    fi.decls.insert(fi.decls.end(), d->Vars().begin(), d->Vars().end());
+	}
+    }
+    else if (functions.empty())
+    {
+	return;
+    }
+    // A function is visited before its body, and its subfunctions after that.
+    else if (a->getKind() == ExprAST::EK_VariableExpr)
+    {
+	info[functions.back()].uses.push_back(llvm::cast<VariableExprAST>(a));
+    }
+    else if (auto fe = llvm::dyn_cast<FunctionExprAST>(a))
+    {
+	if (FunctionAST* f = fe->Proto()->Function())
+	{
+	    info[functions.back()].refs.push_back(f);
+	}
+    }
+    else if (auto c = llvm::dyn_cast<CallExprAST>(a))
+    {
+	calls.push_back(c);
+    }
+}
 
-void CallGraphClosureCollector::AddVarDecls(const std::vector<VarDef>& vars, FunctionAST* f)
+ClosureBuilder::Variable ClosureBuilder::Find(FunctionAST* f, const std::string& name)
 {
-    VarMap& dm = declMap[f];
-    for (auto d : vars)
+    for (; f; f = f->Parent())
     {
-	ICE_IF(d.Name().empty(), "Variables should have a name");
-	dm.insert(std::pair<std::string, VarDef>(d.Name(), d));
+	const std::vector<VarDef>& decls = info[f].decls;
+	for (size_t i = 0; i < decls.size(); i++)
+	{
+	    if (samename(decls[i].Name(), name))
+	    {
+		return { f, i };
+	    }
+	}
     }
+    return { nullptr, 0 };
 }
 
-void CallGraphClosureCollector::CollectUseData(FunctionAST* f)
+bool ClosureBuilder::Capture(FunctionAST* f, const Variable& v)
 {
-    CollectUses collector;
-    f->accept(collector);
-    if (!llvm::isa<Types::VoidDecl>(f->Proto()->Type()))
+    std::vector<Variable>& captured = info[f].captured;
+    if (!v.owner || v.owner == f || std::find(captured.begin(), captured.end(), v) != captured.end())
     {
-	AddVarDecls({ VarDef(f->Proto()->Name(), f->Proto()->Type()) }, f);
+	return false;
     }
-    AddVarDecls(f->Proto()->Args(), f);
-    useMap[f] = collector.uses;
-    callMap[f] = collector.calls;
+    captured.push_back(v);
+    // The elements of a dynamic array are found with the help of its bounds.
+    if (auto dty = llvm::dyn_cast<Types::DynArrayDecl>(Def(v).Type()))
+    {
+	Capture(f, Find(v.owner, dty->Range()->LowName()));
+	Capture(f, Find(v.owner, dty->Range()->HighName()));
+    }
+    return true;
 }
 
-void RemoveFromUses(VarSet& uses, const VarMap& decls)
+// Is there a function that needs this variable, although the name means another one there?
+bool ClosureBuilder::IsHidden(const Variable& v)
 {
-    for (auto d : decls)
+    for (FunctionAST* f : functions)
     {
-	uses.erase(d.second.Name());
+	const std::vector<Variable>& captured = info[f].captured;
+	if (std::find(captured.begin(), captured.end(), v) != captured.end() && !(Find(f, Def(v).Name()) == v))
+	{
+	    return true;
+	}
     }
+    return false;
 }
 
-void AddToUses(VarSet& uses, VarSet& more)
+void ClosureBuilder::Rename(const Variable& v, const std::string& name)
 {
-    for (auto v : more)
+    const std::string oldName = Def(v).Name();
+    for (FunctionAST* f : functions)
     {
-	uses.insert(v);
+	for (VariableExprAST* u : info[f].uses)
+	{
+	    if (samename(u->Name(), oldName) && Find(f, u->Name()) == v)
+	    {
+		u->Rename(name);
+	    }
+	}
     }
+    v.owner->RenameVar(oldName, name);
+    info[v.owner].decls[v.index].Rename(name);
 }
 
-void BuildClosures(ExprAST* ast)
+void ClosureBuilder::Build(ExprAST* ast)
 {
-    TRACE();
-    CallGraphClosureCollector v;
-    CallGraph(ast, v);
+    ast->accept(*this);
 
-    for (auto usage : v.useMap)
+    for (FunctionAST* f : functions)
     {
-	VarSet       uses = usage.second;
-	FunctionAST* func = const_cast<FunctionAST*>(usage.first);
-
-	// Remove local declarations.
-	RemoveFromUses(uses, v.declMap[func]);
-
-	// Add uses from subfunctions.
-	for (auto sub : func->SubFunctions())
+	for (VariableExprAST* u : info[f].uses)
 	{
-	    VarSet use = v.useMap[sub];
-	    RemoveFromUses(use, v.declMap[sub]);
-	    AddToUses(uses, use);
+	    Capture(f, Find(f, u->Name()));
 	}
+    }
 
-	for (auto call : v.callMap[func])
+    bool changed = true;
+    while (changed)
+    {
+	changed = false;
+	for (FunctionAST* f : functions)
 	{
-	    VarSet callerUse = v.useMap[call];
-	    RemoveFromUses(callerUse, v.declMap[call]);
-	    AddToUses(uses, callerUse);
+	    for (FunctionAST* ref : info[f].refs)
+	    {
+		for (const Variable& v : std::vector<Variable>(info[ref].captured))
+		{
+		    changed |= Capture(f, v);
+		}
+	    }
 	}
+    }
 
-	// Now search up the stack until to see if
-	// it's local "above" us.
-	std::set<VarDef> used;
-	for (auto use : uses)
+    int count = 0;
+    for (FunctionAST* f : functions)
+    {
+	for (size_t i = 0; i < info[f].decls.size(); i++)
 	{
-	    for (const FunctionAST* f = func->Parent(); f; f = f->Parent())
+	    if (IsHidden({ f, i }))
 	    {
-		const VarMap& dm = v.declMap[f];
-		auto          v = dm.find(use);
-		if (v != dm.end())
-		{
-		    used.insert(v->second);
-		    break;
-		}
+		Rename({ f, i }, info[f].decls[i].Name() + "." + std::to_string(++count));
 	    }
 	}
+    }
 
-	func->SetUsedVars(used);
-	if (Types::TypeDecl* closure = func->ClosureType())
+    for (FunctionAST* f : functions)
+    {
+	std::set<VarDef> used;
+	for (const Variable& v : info[f].captured)
+	{
+	    used.insert(Def(v));
+	}
+	f->SetUsedVars(used);
+	if (Types::TypeDecl* closure = f->ClosureType())
 	{
-	    func->Proto()->AddExtraArgsFirst(
-	        { VarDef(func->ClosureName(), closure, VarDef::Flags::Reference | VarDef::Flags::Closure) });
-	    UpdateCallVisitor updater(func->Proto());
-	    ast->accept(updater);
+	    f->Proto()->AddExtraArgsFirst(
+	        { VarDef(f->ClosureName(), closure, VarDef::Flags::Reference | VarDef::Flags::Closure) });
 	}
     }
+
+    for (CallExprAST* call : calls)
+    {
+	if (auto fe = llvm::dyn_cast<FunctionExprAST>(call->Callee()))
+	{
+	    if (FunctionAST* fn = fe->Proto()->Function())
+	    {
+		AddClosureArg(fn, call->Args());
+	    }
+	}
+    }
+}
+
+void BuildClosures(ExprAST* ast)
+{
+    TRACE();
+    ClosureBuilder builder;
+    builder.Build(ast);
 }
diff --git a/expr.cpp b/expr.cpp
index 3f20ab1..fe82f0f 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -2131,6 +2131,55 @@ void FunctionAST::accept(ASTVisitor& v)
     }
 }
 
+static void RenameVars(std::vector<VarDef>& vars, const std::string& from, const std::string& to)
+{
+    for (auto& v : vars)
+    {
+	if (samename(v.Name(), from))
+	{
+	    v.Rename(to);
+	}
+    }
+}
+
+void VarDeclAST::RenameVar(const std::string& from, const std::string& to)
+{
+    RenameVars(vars, from, to);
+}
+
+void PrototypeAST::RenameVar(const std::string& from, const std::string& to)
+{
+    RenameVars(args, from, to);
+    for (const VarDef& a : args)
+    {
+	if (auto dty = llvm::dyn_cast<Types::DynArrayDecl>(a.Type()))
+	{
+	    Types::DynRangeDecl* dr = dty->Range();
+	    if (samename(dr->LowName(), from))
+	    {
+		dr->SetLowName(to);
+	    }
+	    if (samename(dr->HighName(), from))
+	    {
+		dr->SetHighName(to);
+	    }
+	}
+    }
+    if (samename(resname, from))
+    {
+	resname = to;
+    }
+}
+
+void FunctionAST::RenameVar(const std::string& from, const std::string& to)
+{
+    proto->RenameVar(from, to);
+    for (auto d : varDecls)
+    {
+	d->RenameVar(from, to);
+    }
+}
+
 static llvm::DISubroutineType* CreateFunctionType(DebugInfo& di, PrototypeAST* proto)
 {
     std::vector<llvm::Metadata*> eltTys;
diff --git a/expr.h b/expr.h
index 6f899e9..b532c85 100644
--- a/expr.h
+++ b/expr.h
@@ -276,6 +276,7 @@ public:
     }
     void              DoDump() const override;
     const std::string Name() const override { return name; }
+    void              Rename(const std::string& nm) { name = nm; }
     llvm::Value*      Address() override;
     static bool       classof(const ExprAST* e) { return e->getKind() == EK_VariableExpr; }
     bool              IsProtected() { return (flags & VarDef::Flags::Protected) == VarDef::Flags::Protected; }
@@ -525,6 +526,7 @@ public:
     FunctionAST*               Function() { return func; }
     static bool                classof(const ExprAST* e) { return e->getKind() == EK_VarDecl; }
     const std::vector<VarDef>& Vars() { return vars; }
+    void                       RenameVar(const std::string& from, const std::string& to);
 
 private:
     llvm::Value* CodeGenGlobal(VarDef var);
@@ -567,6 +569,7 @@ public:
     void                       SetFunction(FunctionAST* fun) { function = fun; }
     FunctionAST*               Function() const { return function; }
     void                       AddExtraArgsFirst(const std::vector<VarDef>& extra);
+    void                       RenameVar(const std::string& from, const std::string& to);
     Types::ClassDecl*          BaseObj() const { return baseobj; }
     void                       SetBaseObj(Types::ClassDecl* obj) { baseobj = obj; }
     bool                       operator==(const PrototypeAST& rhs) const;
@@ -596,11 +599,13 @@ public:
     void                AddSubFunctions(const std::vector<FunctionAST*>& subs) { subFunctions = subs; }
     void                SetParent(FunctionAST* p) { parent = p; }
     const FunctionAST*  Parent() const { return parent; }
+    FunctionAST*        Parent() { return parent; }
     const std::vector<FunctionAST*> SubFunctions() const { return subFunctions; }
     void                    SetUsedVars(const std::set<VarDef>& usedvars) { usedVariables = usedvars; }
     const std::set<VarDef>& UsedVars() { return usedVariables; }
     Types::TypeDecl*        ClosureType();
     const std::string       ClosureName() { return "$$CLOSURE"; };
+    void                    RenameVar(const std::string& from, const std::string& to);
     static bool             classof(const ExprAST* e) { return e->getKind() == EK_Function; }
     void                    accept(ASTVisitor& v) override;
     void                    EndLoc(const Location& loc) { endLoc = loc; }
diff --git a/namedobject.h b/namedobject.h
index c36074a..22231f0 100644
--- a/namedobject.h
+++ b/namedobject.h
@@ -28,6 +28,7 @@ public:
     virtual ~NamedObject() {}
     Types::TypeDecl*   Type() const { return type; }
     const std::string& Name() const { return name; }
+    void               Rename(const std::string& nm) { name = nm; }
     virtual void       dump() const;
     NamedKind          getKind() const { return kind; }
 
diff --git a/types.h b/types.h
index 2f9174b..63f026b 100644
--- a/types.h
+++ b/types.h
@@ -294,6 +294,8 @@ namespace Types
 	static bool        classof(const TypeDecl* e) { return e->getKind() == TK_DynRange; }
 	const std::string& LowName() { return lowName; }
 	const std::string& HighName() { return highName; }
+	void               SetLowName(const std::string& nm) { lowName = nm; }
+	void               SetHighName(const std::string& nm) { highName = nm; }
 	size_t             RangeSize() const override
 	{
 	    ICE("Huh? Dynamic range size?");
-- 
2.43.0


From 84a962189c8e9c19bdb2579c9506bff3b68f0656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:40 +0000
Subject: [PATCH 84/93] fix: a list that is not continued as it should be is
 diagnosed

---
 parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser.cpp b/parser.cpp
index 0bf3043..27145b6 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -545,6 +545,7 @@ static bool ParseSeparatedList(Parser& parser, ListConsumer& lc)
 	    bool good = IsOneOf(parser.CurrentToken().GetToken(), lc.separators);
 	    if (!good)
 	    {
+		parser.Error("Unexpected '" + parser.CurrentToken().TypeStr() + "' in list");
 		return false;
 	    }
 	    if (ShouldConsume(parser.CurrentToken().GetToken(), lc.separators) == ExpectConsume)
-- 
2.43.0


From 80c799c068e1e72a7fb29b728aa5b386432c52d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:08 +0000
Subject: [PATCH 85/93] fix: errors counted during code generation fail the
 compilation

---
 expr.h     | 1 +
 lacsap.cpp | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/expr.h b/expr.h
index b532c85..6a8e7bc 100644
--- a/expr.h
+++ b/expr.h
@@ -1143,6 +1143,7 @@ llvm::Constant*      MakeConstant(uint64_t val, Types::TypeDecl* ty);
 llvm::Value*         MakeAddressable(ExprAST* e);
 llvm::Value*         MakeStringFromExpr(ExprAST* e, Types::TypeDecl* ty);
 void                 BackPatch();
+int                  GetErrors();
 llvm::FunctionCallee GetFunction(llvm::Type* resTy, const std::vector<llvm::Type*>& args,
                                  const std::string& name);
 ExprAST*             Recast(ExprAST* a, const Types::TypeDecl* ty);
diff --git a/lacsap.cpp b/lacsap.cpp
index 7099ee4..72012aa 100644
--- a/lacsap.cpp
+++ b/lacsap.cpp
@@ -183,6 +183,12 @@ static int Compile(const std::string& fileName)
 	BackPatch();
     }
 
+    if (int e = GetErrors())
+    {
+	std::cerr << "Errors in code generation: " << e << ".\nExiting..." << std::endl;
+	return 1;
+    }
+
 #if !NDEBUG
     if (verbosity)
     {
-- 
2.43.0


From 15433a79fcb9509680e7bdc9b5e2b8e802261eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:08 +0000
Subject: [PATCH 86/93] fix: a program whose object or IR file could not be
 written is not linked and not a success

---
 binary.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/binary.cpp b/binary.cpp
index be1ce48..0372535 100644
--- a/binary.cpp
+++ b/binary.cpp
@@ -54,7 +54,7 @@ static llvm::ToolOutputFile* GetOutputStream(const std::string& filename)
     return FDOut;
 }
 
-static void CreateObject(llvm::Module* module, const std::string& objname)
+static bool CreateObject(llvm::Module* module, const std::string& objname)
 {
     TIME_TRACE();
     llvm::InitializeAllTargets();
@@ -69,7 +69,7 @@ static void CreateObject(llvm::Module* module, const std::string& objname)
     if (!target)
     {
 	std::cerr << "Error, could not find target: " << error << std::endl;
-	return;
+	return false;
     }
 
     std::string mcpu = llvm::codegen::getMCPU();
@@ -86,7 +86,7 @@ static void CreateObject(llvm::Module* module, const std::string& objname)
     if (!tm)
     {
 	std::cerr << "Error: Could not create targetmachine." << std::endl;
-	return;
+	return false;
     }
 
     llvm::legacy::PassManager           PM;
@@ -97,7 +97,7 @@ static void CreateObject(llvm::Module* module, const std::string& objname)
     if (!Out)
     {
 	std::cerr << "Could not open file ... " << std::endl;
-	return;
+	return false;
     }
 
     llvm::raw_pwrite_stream* OS = &Out->os();
@@ -107,10 +107,11 @@ static void CreateObject(llvm::Module* module, const std::string& objname)
 	std::cerr << objname
 	          << ": target does not support generation of this"
 	             " file type!\n";
-	return;
+	return false;
     }
     PM.run(*module);
     Out->keep();
+    return true;
 }
 
 std::string replace_ext(const std::string& origName, const std::string& expectedExt,
@@ -144,7 +145,10 @@ bool CreateBinary(llvm::Module* module, const std::string& filename, EmitType em
 	    modelStr = "-m32";
 	}
 
-	CreateObject(module, objname);
+	if (!CreateObject(module, objname))
+	{
+	    return false;
+	}
 	std::string verboseflags;
 	if (verbosity)
 	{
@@ -173,6 +177,11 @@ bool CreateBinary(llvm::Module* module, const std::string& filename, EmitType em
 
     std::string                           irName = replace_ext(filename, ".pas", ".ll");
     std::unique_ptr<llvm::ToolOutputFile> Out(GetOutputStream(irName));
+    if (!Out)
+    {
+	std::cerr << "Could not open file " << irName << std::endl;
+	return false;
+    }
     llvm::formatted_raw_ostream           FOS(Out->os());
     module->print(FOS, 0);
     Out->keep();
-- 
2.43.0


From 6fd645ab139f3af8400d51c0f3aaad4abcfc7979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:42 +0000
Subject: [PATCH 87/93] fix: objects are laid out and accessed with one
 numbering and carry their class's vtable everywhere

The vtable pointer stands where the first class with virtual methods puts it, so that methods of its base classes find their
fields; static fields take no space; objects inside arrays, records and other objects, results and value parameters get a
vtable; classes that override nothing have one; assigning an object of a derived class copies the object and leaves the
vtable; overriding what is not virtual is diagnosed.
---
 builtin.cpp |  12 +----
 expr.cpp    | 152 +++++++++++++++++++++++++++++++++++++++++++---------
 expr.h      |   1 +
 parser.cpp  |  62 +++++++++++++--------
 types.cpp   | 102 +++++++++++++++++++++++------------
 types.h     |  10 +++-
 6 files changed, 248 insertions(+), 91 deletions(-)

diff --git a/builtin.cpp b/builtin.cpp
index bbb726a..87a99ab 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -976,17 +976,7 @@ namespace Builtin
 	retVal = builder.CreateBitCast(retVal, pd->LlvmType(), "cast");
 	llvm::Value* pA = var->Address();
 
-	// TODO: We need to recursively process the type here, and construct vtables for all
-	// of the elements that are classes (that have VTables).
-	if (auto cd = llvm::dyn_cast<Types::ClassDecl>(elemTy))
-	{
-	    if (cd->VTableType(Types::Opaque))
-	    {
-		llvm::GlobalVariable* gv = theModule->getGlobalVariable("vtable_" + cd->Name(), true);
-		llvm::Value* dest = builder.CreateGEP(voidTy, retVal, MakeIntegerConstant(0), "vtable");
-		builder.CreateStore(gv, dest);
-	    }
-	}
+	InitObjects(retVal, elemTy);
 	return builder.CreateStore(retVal, pA);
     }
 
diff --git a/expr.cpp b/expr.cpp
index fe82f0f..1b07978 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -239,6 +239,8 @@ void ExprAST::dump() const
     std::cerr << std::endl;
 }
 
+static void SetVTable(llvm::Value* v, const Types::TypeDecl* ty);
+
 static std::nullptr_t Error(const ExprAST* e, const std::string& msg)
 {
     if (e && e->Loc())
@@ -1972,6 +1974,11 @@ void PrototypeAST::CreateArgumentAlloca()
 	    a = CreateAlloca(llvmFunc, args[idx]);
 	    builder.CreateStore(&*ai, a);
 	}
+	if (!args[idx].IsRef() && llvm::isa<Types::ClassDecl>(args[idx].Type()))
+	{
+	    // The argument may be of a derived class, the parameter is not.
+	    SetVTable(a, args[idx].Type());
+	}
 	if (!variables.Add(args[idx].Name(), a))
 	{
 	    Error(this, "Duplicate variable name " + args[idx].Name());
@@ -2005,6 +2012,7 @@ void PrototypeAST::CreateArgumentAlloca()
     if (!llvm::isa<Types::VoidDecl>(type))
     {
 	llvm::AllocaInst* a = CreateAlloca(llvmFunc, VarDef(resname, type));
+	InitObjects(a, type);
 	if (!variables.Add(resname, a))
 	{
 	    Error(this, "Duplicate function result name '" + resname + "'.");
@@ -2415,6 +2423,19 @@ llvm::Value* AssignExprAST::CodeGen()
 
     llvm::Value* dest = lhsv->Address();
 
+    // An object keeps its own vtable, whatever is assigned to it.
+    if (auto cd = llvm::dyn_cast<Types::ClassDecl>(lhsv->Type()); cd && cd->VTableType(Types::Opaque))
+    {
+	llvm::Type*  ty = Types::GetVoidPtrType();
+	llvm::Value* vptr = builder.CreateGEP(
+	    cd->LlvmType(), dest, { MakeIntegerConstant(0), MakeIntegerConstant(cd->VTableIndex()) }, "vptr");
+	llvm::Value* vtable = builder.CreateLoad(ty, vptr, "vtable");
+	llvm::Value* v = rhs->CodeGen();
+	builder.CreateStore(v, dest);
+	builder.CreateStore(vtable, vptr);
+	return v;
+    }
+
     // If rhs is a simple variable, and "large", then use memcpy on it!
     size_t size = rhs->Type()->Size();
     if (!disableMemcpyOpt && size >= MEMCPY_THRESHOLD)
@@ -3357,6 +3378,104 @@ void VarDeclAST::DoDump() const
     }
 }
 
+// The elements of a record or an object that have space of their own.
+static std::vector<std::pair<int, Types::TypeDecl*>> Elements(const Types::TypeDecl* ty)
+{
+    std::vector<std::pair<int, Types::TypeDecl*>> elements;
+    auto                                          cd = llvm::dyn_cast<Types::ClassDecl>(ty);
+    auto                                          rd = llvm::dyn_cast<Types::RecordDecl>(ty);
+    int                                           count = cd ? cd->ElementCount() : rd ? rd->FieldCount() : 0;
+    for (int i = 0; i < count; i++)
+    {
+	const Types::FieldDecl* f = cd ? cd->GetElement(i) : rd->GetElement(i);
+	if (f && !f->IsStatic())
+	{
+	    elements.push_back({ i, f->SubType() });
+	}
+    }
+    return elements;
+}
+
+// The value a variable has at first: all zero, except for the vtables of the objects it is or holds.
+// Null if there are no such objects.
+static llvm::Constant* InitialObjects(const Types::TypeDecl* ty)
+{
+    if (auto ad = llvm::dyn_cast<Types::ArrayDecl>(ty))
+    {
+	llvm::Constant* init = InitialObjects(ad->SubType());
+	auto            aty = init ? llvm::dyn_cast<llvm::ArrayType>(ad->LlvmType()) : 0;
+	if (!aty)
+	{
+	    return 0;
+	}
+	return llvm::ConstantArray::get(aty, std::vector<llvm::Constant*>(aty->getNumElements(), init));
+    }
+
+    std::map<int, llvm::Constant*> inits;
+    for (auto e : Elements(ty))
+    {
+	if (llvm::Constant* init = InitialObjects(e.second))
+	{
+	    inits[e.first] = init;
+	}
+    }
+    auto cd = llvm::dyn_cast<Types::ClassDecl>(ty);
+    if (cd && cd->VTableType(Types::Opaque))
+    {
+	inits[cd->VTableIndex()] = theModule->getGlobalVariable("vtable_" + cd->Name(), true);
+    }
+    if (inits.empty())
+    {
+	return 0;
+    }
+    auto                         sty = llvm::dyn_cast<llvm::StructType>(ty->LlvmType());
+    std::vector<llvm::Constant*> values;
+    for (unsigned i = 0; i < sty->getNumElements(); i++)
+    {
+	values.push_back(inits[i] ? inits[i] : llvm::Constant::getNullValue(sty->getElementType(i)));
+    }
+    return llvm::ConstantStruct::get(sty, values);
+}
+
+static void SetVTable(llvm::Value* v, const Types::TypeDecl* ty)
+{
+    auto cd = llvm::dyn_cast<Types::ClassDecl>(ty);
+    if (cd && cd->VTableType(Types::Opaque))
+    {
+	llvm::GlobalVariable* gv = theModule->getGlobalVariable("vtable_" + cd->Name(), true);
+	llvm::Value*          dest = builder.CreateGEP(
+            ty->LlvmType(), v, { MakeIntegerConstant(0), MakeIntegerConstant(cd->VTableIndex()) }, "vtable");
+	builder.CreateStore(gv, dest);
+    }
+}
+
+void InitObjects(llvm::Value* v, const Types::TypeDecl* ty)
+{
+    if (llvm::isa<Types::ArrayDecl>(ty))
+    {
+	if (llvm::Constant* init = InitialObjects(ty))
+	{
+	    auto gv = new llvm::GlobalVariable(*theModule, init->getType(), true,
+	                                       llvm::GlobalValue::PrivateLinkage, init, "objects");
+	    const llvm::DataLayout& dl = theModule->getDataLayout();
+	    llvm::Align             align = dl.getPrefTypeAlign(init->getType());
+	    gv->setAlignment(align);
+	    builder.CreateMemCpy(v, dl.getABITypeAlign(init->getType()), gv, align, ty->Size());
+	}
+	return;
+    }
+    SetVTable(v, ty);
+    for (auto e : Elements(ty))
+    {
+	if (InitialObjects(e.second))
+	{
+	    llvm::Value* elem = builder.CreateGEP(
+	        ty->LlvmType(), v, { MakeIntegerConstant(0), MakeIntegerConstant(e.first) }, "object");
+	    InitObjects(elem, e.second);
+	}
+    }
+}
+
 llvm::Value* VarDeclAST::CodeGenGlobal(VarDef var)
 {
     llvm::Type*  ty = var.Type()->LlvmType();
@@ -3367,22 +3486,11 @@ llvm::Value* VarDeclAST::CodeGenGlobal(VarDef var)
     }
 
     ICE_IF(!ty, "Type should have a value");
-    llvm::Constant*   init;
-    llvm::Constant*   nullValue = llvm::Constant::getNullValue(ty);
-    Types::ClassDecl* cd = llvm::dyn_cast<Types::ClassDecl>(var.Type());
-    if (cd && cd->VTableType(Types::Opaque))
+    llvm::Constant* init = InitialObjects(var.Type());
+    llvm::Constant* nullValue = llvm::Constant::getNullValue(ty);
+    if (init)
     {
-	llvm::GlobalVariable*        gv = theModule->getGlobalVariable("vtable_" + cd->Name(), true);
-	auto                         sty = llvm::dyn_cast<llvm::StructType>(ty);
-	std::vector<llvm::Constant*> vtable(sty->getNumElements());
-	vtable[0] = gv;
-	unsigned i = 1;
-	while (llvm::Constant* c = nullValue->getAggregateElement(i))
-	{
-	    vtable[i] = c;
-	    i++;
-	}
-	init = llvm::ConstantStruct::get(sty, vtable);
+	// Nothing more to do.
     }
     else if (ExprAST* iv = var.Init())
     {
@@ -3427,13 +3535,9 @@ llvm::Value* VarDeclAST::CodeGenGlobal(VarDef var)
 llvm::Value* VarDeclAST::CodeGenLocal(VarDef var)
 {
     llvm::Value* v = CreateAlloca(func->Proto()->LlvmFunction(), var);
-    auto         cd = llvm::dyn_cast<Types::ClassDecl>(var.Type());
-    if (cd && cd->VTableType(Types::Opaque))
+    if (InitialObjects(var.Type()))
     {
-	llvm::GlobalVariable* gv = theModule->getGlobalVariable("vtable_" + cd->Name(), true);
-	llvm::Type*           ty = Types::GetVoidPtrType();
-	llvm::Value*          dest = builder.CreateGEP(ty, v, MakeIntegerConstant(0), "vtable");
-	builder.CreateStore(gv, dest);
+	InitObjects(v, var.Type());
     }
     else if (ExprAST* iv = var.Init())
     {
@@ -4172,8 +4276,7 @@ llvm::Value* TypeCastAST::CodeGen()
     }
     if (llvm::isa<Types::ClassDecl>(type) && llvm::isa<Types::ClassDecl>(current))
     {
-	llvm::Type* ty = llvm::PointerType::getUnqual(type->LlvmType());
-	return builder.CreateLoad(ty, builder.CreateBitCast(Address(), ty));
+	return builder.CreateLoad(type->LlvmType(), Address(), "object");
     }
     if (llvm::isa<Types::CharDecl>(type) && llvm::isa<Types::CharDecl>(current))
     {
@@ -4378,7 +4481,8 @@ llvm::Value* VirtFunctionAST::Address()
     auto         vtableTy = llvm::dyn_cast<Types::ClassDecl>(self->Type())->VTableType(Types::FilledIn);
     llvm::Type*  ptrVTableTy = llvm::PointerType::getUnqual(vtableTy);
     llvm::Value* zero = MakeIntegerConstant(0);
-    v = builder.CreateGEP(ty, v, { zero, zero }, "vptr");
+    int          vptr = llvm::dyn_cast<Types::ClassDecl>(self->Type())->VTableIndex();
+    v = builder.CreateGEP(ty, v, { zero, MakeIntegerConstant(vptr) }, "vptr");
     v = builder.CreateLoad(ptrVTableTy, v, "vtable");
     v = builder.CreateGEP(vtableTy, v, { zero, MakeIntegerConstant(index) }, "mfunc");
     return v;
diff --git a/expr.h b/expr.h
index 6a8e7bc..e6941b9 100644
--- a/expr.h
+++ b/expr.h
@@ -1144,6 +1144,7 @@ llvm::Value*         MakeAddressable(ExprAST* e);
 llvm::Value*         MakeStringFromExpr(ExprAST* e, Types::TypeDecl* ty);
 void                 BackPatch();
 int                  GetErrors();
+void                 InitObjects(llvm::Value* v, const Types::TypeDecl* ty);
 llvm::FunctionCallee GetFunction(llvm::Type* resTy, const std::vector<llvm::Type*>& args,
                                  const std::string& name);
 ExprAST*             Recast(ExprAST* a, const Types::TypeDecl* ty);
diff --git a/parser.cpp b/parser.cpp
index 27145b6..a127cb9 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -2059,15 +2059,22 @@ Types::ClassDecl* Parser::ParseClassDecl(const std::string& name)
 
     std::vector<Types::MemberFuncDecl*> mf;
     std::vector<VarDef>                 vars;
-    bool                                needVtable = false;
     for (auto f = fields.begin(); f != fields.end();)
     {
 	if (auto m = llvm::dyn_cast<Types::MemberFuncDecl>((*f)->SubType()))
 	{
 	    mf.push_back(m);
-	    if (m->IsVirtual() || m->IsOverride())
+	    // A method of the base class that is called through the vtable is replaced under the same conditions.
+	    int                    elem = base ? base->MembFunc(m->Proto()->Name()) : -1;
+	    Types::MemberFuncDecl* bm = elem >= 0 ? base->GetMembFunc(elem) : 0;
+	    bool                   virt = bm && (bm->IsVirtual() || bm->IsOverride());
+	    if (m->IsOverride() && !virt)
 	    {
-		needVtable = true;
+		return Error("Method '" + m->Proto()->Name() + "' overrides nothing virtual in the base class");
+	    }
+	    if (virt && !m->IsOverride() && !m->IsVirtual())
+	    {
+		return Error("Method '" + m->Proto()->Name() + "' is virtual in the base class, expected 'override'");
 	    }
 	    f = fields.erase(f);
 	}
@@ -2088,7 +2095,7 @@ Types::ClassDecl* Parser::ParseClassDecl(const std::string& name)
 
     auto cd = new Types::ClassDecl(name, fields, mf, variant, base);
     // For now, we generate vtable whether we need it or not.
-    if (needVtable)
+    if (cd->VTableType(Types::Opaque))
     {
 	ast.push_back(new VTableAST(loc, cd));
     }
@@ -2606,8 +2613,6 @@ ExprAST* Parser::ParseFieldExpr(ExprAST* expr, Types::TypeDecl*& type)
     }
     std::string         typedesc;
     ExprAST*            e = 0;
-    Types::VariantDecl* v = 0;
-    unsigned            fc = 0;
     if (auto cd = llvm::dyn_cast<Types::ClassDecl>(type))
     {
 	int elem = cd->Element(name);
@@ -2649,8 +2654,13 @@ ExprAST* Parser::ParseFieldExpr(ExprAST* expr, Types::TypeDecl*& type)
 	    }
 	    else
 	    {
-		fc = cd->FieldCount();
-		v = cd->Variant();
+		for (const Types::ClassDecl* c = cd; c && !e; c = c->BaseObj())
+		{
+		    if (c->Variant())
+		    {
+			e = FindVariant(expr, type, c->VariantIndex(), c->Variant(), name);
+		    }
+		}
 	    }
 	}
     }
@@ -2675,10 +2685,6 @@ ExprAST* Parser::ParseFieldExpr(ExprAST* expr, Types::TypeDecl*& type)
 	    return Error("Attempt to use field of variable that hasn't got fields");
 	}
     }
-    if (!e && v)
-    {
-	e = FindVariant(expr, type, fc, v, name);
-    }
     if (!e)
     {
 	return Error("Can't find element " + name + " in " + typedesc);
@@ -4288,15 +4294,18 @@ ExprAST* Parser::ParseCaseExpr()
 void Parser::ExpandWithNames(const Types::FieldCollection* fields, ExprAST* v, int parentCount)
 {
     TRACE();
-    int vtableoffset = 0;
-    if (const auto cd = llvm::dyn_cast<Types::ClassDecl>(fields))
-    {
-	vtableoffset = !!cd->VTableType(Types::Opaque);
-    }
-    for (int i = vtableoffset; i < fields->FieldCount() + vtableoffset; i++)
+    const auto cd = llvm::dyn_cast<Types::ClassDecl>(fields);
+    int        count = cd ? cd->ElementCount() : fields->FieldCount();
+    for (int i = 0; i < count; i++)
     {
-	const Types::FieldDecl* f = fields->GetElement(i);
-	Types::TypeDecl*        ty = f->SubType();
+	std::string             objname;
+	const Types::FieldDecl* f = cd ? cd->GetElement(i, objname) : fields->GetElement(i);
+	// Not a field, or a field of a base class that has been redeclared.
+	if (!f || (cd && cd->Element(f->Name()) != i))
+	{
+	    continue;
+	}
+	Types::TypeDecl* ty = f->SubType();
 	if (f->Name() == "")
 	{
 	    auto rd = llvm::dyn_cast<Types::RecordDecl>(ty);
@@ -4319,7 +4328,11 @@ void Parser::ExpandWithNames(const Types::FieldCollection* fields, ExprAST* v, i
 	else
 	{
 	    ExprAST* e;
-	    if (llvm::isa<Types::RecordDecl, Types::ClassDecl>(fields))
+	    if (f->IsStatic())
+	    {
+		e = new VariableExprAST(CurrentToken().Loc(), objname + "$" + f->Name(), ty);
+	    }
+	    else if (llvm::isa<Types::RecordDecl, Types::ClassDecl>(fields))
 	    {
 		e = new FieldExprAST(CurrentToken().Loc(), v, i, ty);
 	    }
@@ -4330,6 +4343,13 @@ void Parser::ExpandWithNames(const Types::FieldCollection* fields, ExprAST* v, i
 	    nameStack.Add(new WithDef(f->Name(), e, f->SubType()));
 	}
     }
+    for (const Types::ClassDecl* c = cd; c; c = c->BaseObj())
+    {
+	if (c->Variant())
+	{
+	    ExpandWithNames(c->Variant(), v, c->VariantIndex());
+	}
+    }
     if (auto od = const_cast<Types::ClassDecl*>(llvm::dyn_cast<Types::ClassDecl>(fields)))
     {
 	int count = od->MembFuncCount();
diff --git a/types.cpp b/types.cpp
index 9615689..0e6a8c5 100644
--- a/types.cpp
+++ b/types.cpp
@@ -1037,33 +1037,57 @@ namespace Types
 	return vtableType;
     }
 
+    int ClassDecl::VTableIndex() const
+    {
+	if (!VTableType(Opaque))
+	{
+	    return -1;
+	}
+	int index = baseobj ? baseobj->VTableIndex() : 0;
+	return index >= 0 ? index : baseobj->ElementCount();
+    }
+
+    int ClassDecl::FirstField() const
+    {
+	int count = baseobj ? baseobj->ElementCount() : 0;
+	return count + (VTableIndex() == count);
+    }
+
+    int ClassDecl::VariantIndex() const
+    {
+	return FirstField() + fields.size();
+    }
+
+    int ClassDecl::ElementCount() const
+    {
+	return VariantIndex() + (variant ? 1 : 0);
+    }
+
     int ClassDecl::Element(const std::string& name) const
     {
-	int b = baseobj ? baseobj->FieldCount() : 0;
 	// Shadowing overrides outer elemnts
 	int elem = FieldCollection::Element(name);
 	if (elem >= 0)
 	{
-	    elem += b;
-	    if (VTableType(Opaque))
-	    {
-		elem++;
-	    }
-	    return elem;
+	    return elem + FirstField();
 	}
 	return (baseobj) ? baseobj->Element(name) : -1;
     }
 
     const FieldDecl* ClassDecl::GetElement(unsigned int n, std::string& objname) const
     {
-	unsigned b = baseobj ? baseobj->FieldCount() : 0;
-	if (baseobj && n < b + (baseobj->VTableType(Opaque) ? 1 : 0))
+	if (baseobj && n < static_cast<unsigned>(baseobj->ElementCount()))
 	{
 	    return baseobj->GetElement(n, objname);
 	}
-	ICE_IF(n > b + fields.size(), "Out of range field");
+	unsigned first = FirstField();
+	if (n < first || n - first >= fields.size())
+	{
+	    // The vtable or the variant part.
+	    return 0;
+	}
 	objname = Name();
-	return fields[n - (b + (VTableType(Opaque) ? 1 : 0))];
+	return fields[n - first];
     }
 
     const FieldDecl* ClassDecl::GetElement(unsigned int n) const
@@ -1102,44 +1126,54 @@ namespace Types
 	return 0;
     }
 
-    llvm::Type* ClassDecl::GetLlvmType() const
+    // Adds the types of all elements, false if one of them is a pointer to a type that isn't known yet.
+    bool ClassDecl::AddElements(std::vector<llvm::Type*>& fv) const
     {
-	std::vector<llvm::Type*> fv;
-
-	int vtableoffset = 0;
-	if (VTableType(Opaque))
+	if (baseobj && !baseobj->AddElements(fv))
 	{
-	    vtableoffset = 1;
-	    fv.push_back(llvm::PointerType::getUnqual(vtableType));
+	    return false;
 	}
-
-	int fc = FieldCount();
-	for (int i = 0; i < fc; i++)
+	if (VTableIndex() == static_cast<int>(fv.size()))
+	{
+	    fv.push_back(llvm::PointerType::getUnqual(VTableType(Opaque)));
+	}
+	for (auto f : fields)
 	{
-	    const FieldDecl* f = GetElement(i + vtableoffset);
-
 	    ICE_IF(llvm::isa<MemberFuncDecl>(f->SubType()), "Should not have member functions");
 
-	    if (!f->IsStatic())
+	    // A static field is a variable of its own, it takes no space in the object.
+	    if (f->IsStatic())
 	    {
-		if (auto pd = llvm::dyn_cast<PointerDecl>(f->SubType()))
+		fv.push_back(llvm::StructType::get(theContext));
+		continue;
+	    }
+	    if (auto pd = llvm::dyn_cast<PointerDecl>(f->SubType()))
+	    {
+		if (pd->IsIncomplete() && !HasLlvmType(pd))
 		{
-		    if (pd->IsIncomplete() && !HasLlvmType(pd))
-		    {
-			if (!opaqueType)
-			{
-			    opaqueType = llvm::StructType::create(theContext, Name());
-			}
-			return opaqueType;
-		    }
+		    return false;
 		}
-		fv.push_back(f->LlvmType());
 	    }
+	    fv.push_back(f->LlvmType());
 	}
 	if (variant)
 	{
 	    fv.push_back(variant->LlvmType());
 	}
+	return true;
+    }
+
+    llvm::Type* ClassDecl::GetLlvmType() const
+    {
+	std::vector<llvm::Type*> fv;
+	if (!AddElements(fv))
+	{
+	    if (!opaqueType)
+	    {
+		opaqueType = llvm::StructType::create(theContext, Name());
+	    }
+	    return opaqueType;
+	}
 	if (opaqueType)
 	{
 	    opaqueType->setBody(fv);
diff --git a/types.h b/types.h
index 63f026b..d6febf6 100644
--- a/types.h
+++ b/types.h
@@ -620,7 +620,7 @@ namespace Types
 	const FieldDecl* GetElement(unsigned int n, std::string& objname) const;
 	int              FieldCount() const override;
 	size_t           Size() const override;
-	VariantDecl*     Variant() { return variant; }
+	VariantDecl*     Variant() const { return variant; }
 	bool             SameAs(const TypeDecl* ty) const override { return this == ty; }
 	size_t           MembFuncCount() const;
 	int              MembFunc(const std::string& nm) const;
@@ -628,6 +628,10 @@ namespace Types
 	size_t           NumVirtFuncs() const;
 	const TypeDecl*  CompatibleType(const TypeDecl* ty) const override;
 	llvm::Type*      VTableType(Opacity opaque) const;
+	int              ElementCount() const;
+	int              VTableIndex() const;
+	int              VariantIndex() const;
+	ClassDecl*       BaseObj() const { return baseobj; }
 	static bool      classof(const TypeDecl* e) { return e->getKind() == TK_Class; }
 	const TypeDecl*  DerivedFrom(const TypeDecl* ty) const;
 
@@ -636,6 +640,10 @@ namespace Types
 	llvm::DIType* GetDIType(llvm::DIBuilder* builder) const override;
 
     private:
+	// The elements of the base class come first, then the vtable (if the base has none), the fields and the variant.
+	int  FirstField() const;
+	bool AddElements(std::vector<llvm::Type*>& fv) const;
+
 	ClassDecl*                   baseobj;
 	VariantDecl*                 variant;
 	std::vector<MemberFuncDecl*> membfuncs;
-- 
2.43.0


From 577d9131ad5426a322b9dd8e5700f68229425ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:19 +0000
Subject: [PATCH 88/93] fix: an override that was not diagnosed is an internal
 error, not a message

---
 types.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/types.cpp b/types.cpp
index 0e6a8c5..0c7b6b0 100644
--- a/types.cpp
+++ b/types.cpp
@@ -1001,12 +1001,8 @@ namespace Types
 	    else if (m->IsOverride())
 	    {
 		int elem = (baseobj) ? baseobj->MembFunc(m->Proto()->Name()) : -1;
-		if (elem < 0)
-		{
-		    std::cerr << "Overriding function " + m->Proto()->Name() +
-		                     " that is not a virtual function in the baseclass!";
-		    return 0;
-		}
+		// The declaration of the class has been checked for this.
+		ICE_IF(elem < 0, "Overriding function " + m->Proto()->Name() + " that is not in the base class");
 		// We need to continue digging here for multi-level functions
 		MemberFuncDecl* mf = baseobj->GetMembFunc(elem);
 		m->VirtIndex(mf->VirtIndex());
-- 
2.43.0


From cb1b10b2c885cd4777ead2f03f4be8b1a6e37664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:29 +0000
Subject: [PATCH 89/93] fix: file names are quoted in the link command, and
 names shorter than the extension are diagnosed

---
 binary.cpp | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/binary.cpp b/binary.cpp
index 0372535..aa08c26 100644
--- a/binary.cpp
+++ b/binary.cpp
@@ -117,7 +117,8 @@ static bool CreateObject(llvm::Module* module, const std::string& objname)
 std::string replace_ext(const std::string& origName, const std::string& expectedExt,
                         const std::string& newExt)
 {
-    if (origName.substr(origName.size() - expectedExt.size()) != expectedExt)
+    if (origName.size() < expectedExt.size() ||
+        origName.substr(origName.size() - expectedExt.size()) != expectedExt)
     {
 	std::cerr << "Could not find extension..." << std::endl;
 	exit(1);
@@ -125,6 +126,24 @@ std::string replace_ext(const std::string& origName, const std::string& expected
     return origName.substr(0, origName.size() - expectedExt.size()) + newExt;
 }
 
+// Make a file name one word of a shell command, whatever characters it contains.
+static std::string ShellQuote(const std::string& name)
+{
+    std::string res = "'";
+    for (auto c : name)
+    {
+	if (c == '\'')
+	{
+	    res += "'\\''";
+	}
+	else
+	{
+	    res += c;
+	}
+    }
+    return res + "'";
+}
+
 bool CreateBinary(llvm::Module* module, const std::string& filename, EmitType emit)
 {
     TIME_TRACE();
@@ -159,8 +178,9 @@ bool CreateBinary(llvm::Module* module, const std::string& filename, EmitType em
 	{
 	    debugFlag = " -g";
 	}
-	std::string cmd = compiler + " " + modelStr + verboseflags + " " + objname + " -L\"" + libpath +
-	                  "\" -lruntime" + modelStr + debugFlag + " -lm -o " + exename;
+	std::string cmd = compiler + " " + modelStr + verboseflags + " " + ShellQuote(objname) + " -L" +
+	                  ShellQuote(libpath) + " -lruntime" + modelStr + debugFlag + " -lm -o " +
+	                  ShellQuote(exename);
 	if (verbosity)
 	{
 	    std::cerr << "Executing final link command: " << cmd << std::endl;
-- 
2.43.0


From 5db41a639f179234320fefc26227b13c916399f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:25 +0000
Subject: [PATCH 90/93] fix: the compiler finds its library when started
 through PATH

---
 lacsap.cpp | 4 +++-
 utils.cpp  | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/lacsap.cpp b/lacsap.cpp
index 72012aa..4bf383e 100644
--- a/lacsap.cpp
+++ b/lacsap.cpp
@@ -16,6 +16,7 @@
 
 #include <llvm/IR/PassManager.h>
 #include <llvm/Support/CommandLine.h>
+#include <llvm/Support/FileSystem.h>
 #include <llvm/Support/TargetSelect.h>
 #include <llvm/Transforms/InstCombine/InstCombine.h>
 #include <llvm/Transforms/IPO.h>
@@ -206,7 +207,8 @@ static int Compile(const std::string& fileName)
 
 int main(int argc, char** argv)
 {
-    libpath = GetPath(argv[0]);
+    // The shell may have found the compiler through PATH, argv[0] alone does not tell where it is.
+    libpath = GetPath(llvm::sys::fs::getMainExecutable(argv[0], reinterpret_cast<void*>(&Compile)));
     llvm::cl::ParseCommandLineOptions(argc, argv);
     int res = Compile(InputFilename);
     return res;
diff --git a/utils.cpp b/utils.cpp
index a93574e..e3e10cb 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -5,7 +5,8 @@
 std::string GetPath(const std::string& filename)
 {
     char                   path[PATH_MAX];
-    std::string            compiler = realpath(filename.c_str(), path);
+    const char*            resolved = realpath(filename.c_str(), path);
+    std::string            compiler = resolved ? resolved : "./" + filename;
     std::string::size_type pos = compiler.find_last_of("/");
     return compiler.substr(0, pos);
 }
-- 
2.43.0


From 84f270fcc1f4ce156d8f75351a3ec2c34a489f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:48 +0000
Subject: [PATCH 91/93] fix: range checks compare with both bounds for every
 index and array type

---
 expr.cpp | 69 +++++++++++++++++++++++++++-----------------------------
 1 file changed, 33 insertions(+), 36 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 1b07978..c9f49ad 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -486,38 +486,28 @@ void ArrayExprAST::DoDump() const
     }
 }
 
-static Types::TypeDecl* FindIndexType(const std::vector<ExprAST*>& indices)
-{
-    ICE_IF(indices.size() == 0, "Expect at least one index");
-    Types::TypeDecl* type = indices[0]->Type();
-    size_t           size = type->Size();
-    for (size_t i = 1; i < indices.size(); i++)
-    {
-	if (size < indices[i]->Type()->Size())
-	{
-	    type = indices[i]->Type();
-	}
-    }
-    return type;
-}
-
 llvm::Value* ArrayExprAST::Address()
 {
     TRACE();
     llvm::Value* v = MakeAddressable(expr);
     ICE_IF(!v, "Expected variable to have an address");
     EnsureSized();
-    llvm::Value*     totalIndex = 0;
-    Types::TypeDecl* indexType = FindIndexType(indices);
+    llvm::Value* totalIndex = 0;
+    // One index may be wider than another, the sum is made in a type that has room for all of them.
+    llvm::Type* indexTy = llvm::Type::getInt64Ty(theContext);
     for (size_t i = 0; i < indices.size(); i++)
     {
 	auto range = llvm::dyn_cast<RangeReduceAST>(indices[i]);
 	ICE_IF(!range, "Expected a range here");
 	llvm::Value* index = range->CodeGen();
 	ICE_IF(!index, "Expression failed for index");
+	if (indices.size() > 1)
+	{
+	    index = builder.CreateSExt(index, indexTy, "sext");
+	}
 	if (indexmul[i] != 1)
 	{
-	    index = builder.CreateMul(index, MakeConstant(indexmul[i], indexType));
+	    index = builder.CreateMul(index, llvm::ConstantInt::get(indexTy, indexmul[i]));
 	}
 	if (!totalIndex)
 	{
@@ -4118,35 +4108,42 @@ llvm::Value* RangeCheckAST::CodeGen()
 {
     TRACE();
 
+    ICE_IF(!IsIntegral(expr->Type()), "Index is supposed to be integral type");
     llvm::Value* index = expr->CodeGen();
     ICE_IF(!index, "Expected expression to generate code");
-    ICE_IF(!index->getType()->isIntegerTy(), "Index is supposed to be integral type");
-
-    llvm::Value* orig_index = index;
-    llvm::Type*  intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
 
-    auto rr = llvm::dyn_cast<Types::RangeDecl>(range);
-    ICE_IF(rr, "Expect a rangedecl here");
-    int start = rr->Start();
-    if (start)
-    {
-	index = builder.CreateSub(index, MakeConstant(start, expr->Type()));
-    }
+    // Compare in a type that has room for the index as well as for the bounds.
+    llvm::Type* intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
     if (index->getType()->getPrimitiveSizeInBits() < intTy->getPrimitiveSizeInBits())
     {
 	if (IsUnsigned(expr->Type()))
 	{
 	    index = builder.CreateZExt(index, intTy, "zext");
-	    orig_index = builder.CreateZExt(orig_index, intTy, "zext");
 	}
 	else
 	{
 	    index = builder.CreateSExt(index, intTy, "sext");
-	    orig_index = builder.CreateSExt(orig_index, intTy, "sext");
 	}
     }
-    int               end = rr->GetRange()->Size();
-    llvm::Value*      cmp = builder.CreateICmpUGE(index, MakeIntegerConstant(end), "rangecheck");
+    llvm::Value* low;
+    llvm::Value* high;
+    if (auto dr = llvm::dyn_cast<Types::DynRangeDecl>(range))
+    {
+	low = builder.CreateLoad(intTy, variables.Find(dr->LowName()), "low");
+	high = builder.CreateLoad(intTy, variables.Find(dr->HighName()), "high");
+    }
+    else
+    {
+	auto rr = llvm::dyn_cast<Types::RangeDecl>(range);
+	ICE_IF(!rr, "This should be a RangeDecl");
+	low = MakeIntegerConstant(rr->Start());
+	high = MakeIntegerConstant(rr->End());
+    }
+    llvm::Value*      wideLow = builder.CreateSExt(low, index->getType(), "low.ext");
+    llvm::Value*      wideHigh = builder.CreateSExt(high, index->getType(), "high.ext");
+    llvm::Value*      below = builder.CreateICmpSLT(index, wideLow, "below");
+    llvm::Value*      above = builder.CreateICmpSGT(index, wideHigh, "above");
+    llvm::Value*      cmp = builder.CreateOr(below, above, "rangecheck");
     llvm::Function*   theFunction = builder.GetInsertBlock()->getParent();
     llvm::BasicBlock* oorBlock = llvm::BasicBlock::Create(theContext, "out_of_range", theFunction);
     llvm::BasicBlock* contBlock = llvm::BasicBlock::Create(theContext, "continue", theFunction);
@@ -4154,8 +4151,8 @@ llvm::Value* RangeCheckAST::CodeGen()
 
     builder.SetInsertPoint(oorBlock);
     std::vector<llvm::Value*> args = { builder.CreateGlobalString(Loc().FileName()),
-	                               MakeIntegerConstant(Loc().LineNumber()), MakeIntegerConstant(start),
-	                               MakeIntegerConstant(end), orig_index };
+	                               MakeIntegerConstant(Loc().LineNumber()), low, high,
+	                               builder.CreateTrunc(index, intTy, "index") };
     std::vector<llvm::Type*>  argTypes = {
         llvm::PointerType::getUnqual(Types::Get<Types::CharDecl>()->LlvmType()), intTy, intTy, intTy, intTy
     };
@@ -4166,7 +4163,7 @@ llvm::Value* RangeCheckAST::CodeGen()
     builder.CreateUnreachable();
 
     builder.SetInsertPoint(contBlock);
-    return index;
+    return builder.CreateSub(index, wideLow);
 }
 
 void TypeCastAST::DoDump() const
-- 
2.43.0


From 7087ac14491b84a751365ec2d7ebf67354c6598d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:24 +0000
Subject: [PATCH 92/93] fix: reading nothing but the file gives code generation
 a value

---
 expr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.cpp b/expr.cpp
index c9f49ad..097a8e4 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -3285,7 +3285,7 @@ llvm::Value* ReadAST::CodeGen()
 
     llvm::Value* sc = src->Address();
     llvm::Type*  voidPtrTy = Types::GetVoidPtrType();
-    llvm::Value* v;
+    llvm::Value* v = sc;
     llvm::Value* descr = 0;
     bool         isText = kind == ReadKind::ReadStr || llvm::isa<Types::TextDecl>(src->Type());
     llvm::Type*  srcTy = sc->getType();
-- 
2.43.0


From 082ed68f7707606b5d29aafae0e1ef5f888d72dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:02 +0000
Subject: [PATCH 93/93] fix: subranges, enumerations, files, complex values and
 var arguments follow the rules for compatible types

---
 semantics.cpp | 44 +++++++++++++++++++++++++++++++++++++-------
 types.cpp     | 33 ++++++++++++++++++++++-----------
 types.h       |  3 +++
 3 files changed, 62 insertions(+), 18 deletions(-)

diff --git a/semantics.cpp b/semantics.cpp
index 5871b02..969b86e 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -636,11 +636,12 @@ void TypeCheckVisitor::Check<BinaryExprAST>(BinaryExprAST* b)
 	    {
 		ty = Types::Get<Types::BoolDecl>();
 	    }
-	    if (!IsIntegral(lty) || !IsIntegral(rty))
+	    if (!IsIntegral(lty) || !IsIntegral(rty) || lty->Type() == Types::TypeDecl::TK_Enum ||
+	        rty->Type() == Types::TypeDecl::TK_Enum)
 	    {
 		Error(b, "Expression must be integral types on both sides");
 	    }
-	    if (llvm::isa<Types::CharDecl>(lty) || llvm::isa<Types::CharDecl>(rty))
+	    if (lty->Type() == Types::TypeDecl::TK_Char || rty->Type() == Types::TypeDecl::TK_Char)
 	    {
 		Error(b, "Types for binary operation should not be CHARACTER");
 	    }
@@ -689,7 +690,7 @@ void TypeCheckVisitor::Check<UnaryExprAST>(UnaryExprAST* u)
     Types::TypeDecl* ty = u->rhs->Type();
     if (u->oper.GetToken() == Token::Not)
     {
-	if (!IsIntegral(ty) || llvm::isa<Types::CharDecl>(ty))
+	if (!IsIntegral(ty) || ty->Type() == Types::TypeDecl::TK_Char || ty->Type() == Types::TypeDecl::TK_Enum)
 	{
 	    Error(u, "Expect integral argument to NOT");
 	}
@@ -738,7 +739,11 @@ void TypeCheckVisitor::Check<AssignExprAST>(AssignExprAST* a)
     {
 	Types::Range* r = lty->GetRange();
 	int64_t       v = llvm::dyn_cast<IntegerExprAST>(a->rhs)->Int();
-	if (r->Start() > v || v > r->End())
+	if (!lty->AssignableType(rty))
+	{
+	    Error(a, "Incompatible type in assignment");
+	}
+	else if (r->Start() > v || v > r->End())
 	{
 	    Error(a, "Value out of range");
 	}
@@ -832,7 +837,7 @@ void TypeCheckVisitor::Check<ArrayExprAST>(ArrayExprAST* a)
 	{
 	    continue;
 	}
-	if (r->Type() != e->Type()->Type() && !e->Type()->CompatibleType(r))
+	if (!r->CompatibleType(e->Type()) && !e->Type()->CompatibleType(r))
 	{
 	    Error(a, "Incorrect index type");
 	}
@@ -860,7 +865,7 @@ void TypeCheckVisitor::Check<DynArrayExprAST>(DynArrayExprAST* d)
     Types::DynRangeDecl* r = d->range;
     if (llvm::isa<RangeReduceAST>(e))
 	return;
-    if (r->Type() != e->Type()->Type() && !e->Type()->CompatibleType(r))
+    if (!r->CompatibleType(e->Type()) && !e->Type()->CompatibleType(r))
     {
 	Error(d, "Incorrect index type");
     }
@@ -892,6 +897,31 @@ void TypeCheckVisitor::Check<BuiltinExprAST>(BuiltinExprAST* b)
     }
 }
 
+// The type an argument is given before it is passed, or null if its type does not fit the parameter. A 'var' parameter
+// is the variable that is passed, so the types must be the same, but for types that carry their own size or class.
+static const Types::TypeDecl* ArgumentType(const VarDef& param, const Types::TypeDecl* argTy)
+{
+    const Types::TypeDecl* ty = param.Type();
+    if (!param.IsRef())
+    {
+	return ty->AssignableType(argTy);
+    }
+    if (llvm::isa<Types::RangeDecl>(ty) != llvm::isa<Types::RangeDecl>(argTy))
+    {
+	return 0;
+    }
+    if (ty->SameAs(argTy))
+    {
+	return ty;
+    }
+    if ((llvm::isa<Types::StringDecl>(ty) && llvm::isa<Types::StringDecl>(argTy)) ||
+        llvm::isa<Types::ClassDecl, Types::DynArrayDecl, Types::FuncPtrDecl>(ty))
+    {
+	return ty->AssignableType(argTy);
+    }
+    return 0;
+}
+
 template<>
 void TypeCheckVisitor::Check<CallExprAST>(CallExprAST* c)
 {
@@ -909,7 +939,7 @@ void TypeCheckVisitor::Check<CallExprAST>(CallExprAST* c)
 	bool bad = true;
 
 	SetTypeFromContext(parg[idx].Type(), a->Type());
-	if (const Types::TypeDecl* ty = parg[idx].Type()->AssignableType(a->Type()))
+	if (const Types::TypeDecl* ty = ArgumentType(parg[idx], a->Type()))
 	{
 	    if (parg[idx].IsRef() && !llvm::isa<AddressableAST, ClosureAST>(a))
 	    {
diff --git a/types.cpp b/types.cpp
index 0c7b6b0..d7ba086 100644
--- a/types.cpp
+++ b/types.cpp
@@ -197,7 +197,7 @@ namespace Types
 
     const TypeDecl* RealDecl::AssignableType(const TypeDecl* ty) const
     {
-	return CompatibleType(ty);
+	return ty->Type() == TK_Complex ? 0 : CompatibleType(ty);
     }
 
     void VoidDecl::DoDump() const
@@ -491,9 +491,19 @@ namespace Types
     {
 	if (const auto rty = llvm::dyn_cast<RangeDecl>(ty))
 	{
-	    return rty->Type() == Type() && *range == *rty->range;
+	    return baseType->SameAs(rty->baseType) && *range == *rty->range;
 	}
-	return Type() == ty->Type();
+	return baseType->SameAs(ty);
+    }
+
+    // The type that a subrange is a part of.
+    static const TypeDecl* HostType(const TypeDecl* ty)
+    {
+	if (auto rty = llvm::dyn_cast<RangeBaseDecl>(ty))
+	{
+	    return HostType(rty->SubType());
+	}
+	return ty;
     }
 
     const TypeDecl* RangeBaseDecl::CompatibleType(const TypeDecl* ty) const
@@ -502,20 +512,16 @@ namespace Types
 	{
 	    return this;
 	}
-	if (ty->Type() == Type())
+	if (HostType(this)->SameAs(HostType(ty)))
 	{
 	    return ty;
 	}
-	if (Type() == TK_LongInt)
-	{
-	    return baseType->CompatibleType(ty);
-	}
-	return 0;
+	return baseType->CompatibleType(ty);
     }
 
     const TypeDecl* RangeBaseDecl::AssignableType(const TypeDecl* ty) const
     {
-	if (SameAs(ty) || ty->Type() == Type())
+	if (HostType(this)->SameAs(HostType(ty)))
 	{
 	    return ty;
 	}
@@ -553,6 +559,11 @@ namespace Types
 	}
     }
 
+    const TypeDecl* EnumDecl::CompatibleType(const TypeDecl* ty) const
+    {
+	return SameAs(HostType(ty)) ? this : 0;
+    }
+
     bool EnumDecl::SameAs(const TypeDecl* ty) const
     {
 	if (const auto ety = llvm::dyn_cast<EnumDecl>(ty))
@@ -1385,7 +1396,7 @@ namespace Types
 	{
 	    if (const auto aty = llvm::dyn_cast<ArrayDecl>(ty))
 	    {
-		if (aty->Ranges().size() == 1)
+		if (aty->Ranges().size() == 1 && aty->SubType()->Type() == TK_Char)
 		{
 		    return this;
 		}
diff --git a/types.h b/types.h
index d6febf6..20911c3 100644
--- a/types.h
+++ b/types.h
@@ -393,6 +393,7 @@ namespace Types
 	void              DoDump() const override;
 	static bool       classof(const TypeDecl* e) { return e->getKind() == TK_Enum; }
 	bool              SameAs(const TypeDecl* ty) const override;
+	const TypeDecl*   CompatibleType(const TypeDecl* ty) const override;
 	TypeDecl*         Clone() const override { return new EnumDecl(kind, values, SubType()); }
 	int               UniqueId() { return uniqueID; }
 
@@ -681,6 +682,8 @@ namespace Types
 	FileDecl(TypeKind k, TypeDecl* ty) : CompoundDecl(k, ty) {}
 	void        DoDump() const override;
 	static bool classof(const TypeDecl* e) { return e->getKind() == TK_File || e->getKind() == TK_Text; }
+	// Files have no value that could be copied.
+	const TypeDecl* AssignableType(const TypeDecl* ty) const override { return 0; }
 
     protected:
 	llvm::Type*   GetLlvmType() const override;
-- 
2.43.0

