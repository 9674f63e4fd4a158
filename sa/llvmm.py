"""Model of the part of the LLVM API the code generator uses: types and constants are terms, instructions are effects."""
from .terms import *

def lty(n):
    return mk("lty", n)
I1, I8, I32, I64, PTR, DBL, VOIDT = (lty(x) for x in ("i1", "i8", "i32", "i64", "ptr", "double", "void"))
FN = mk("thefn")

EFFECTS = {"CreateLoad", "CreateCall", "CreatePHI", "CreateAlloca", "CreateGlobalString", "CreateGlobalStringPtr",
           "CreateSwitch", "CreateStore", "CreateMemCpy", "CreateMemSet", "CreateBr", "CreateCondBr", "CreateRet",
           "CreateRetVoid", "CreateUnreachable", "CreateInvoke"}
TERMS = {"CreateBr", "CreateCondBr", "CreateRet", "CreateRetVoid", "CreateSwitch", "CreateUnreachable"}
COMM = {"CreateAdd", "CreateMul", "CreateAnd", "CreateOr", "CreateXor", "CreateFAdd", "CreateFMul", "CreateICmpEQ", "CreateICmpNE",
        "CreateFCmpOEQ", "CreateFCmpONE"}
SWAP = {"CreateICmpSGT": "CreateICmpSLT", "CreateICmpSGE": "CreateICmpSLE", "CreateICmpUGT": "CreateICmpULT",
        "CreateICmpUGE": "CreateICmpULE", "CreateFCmpOGT": "CreateFCmpOLT", "CreateFCmpOGE": "CreateFCmpOLE"}

def bits(t):
    if isinstance(t, T) and t.op == "lty" and t.a[0][0] == "i" and t.a[0][1:].isdigit():
        return int(t.a[0][1:])
    return None

def tyid(t):
    """llvm::Type::TypeID of a known type (LLVM 18 numbering)."""
    if not isinstance(t, T):
        return None
    if bits(t) or t.op == "lintn":
        return 13
    return {"float": 2, "double": 3, "void": 7, "ptr": 15}.get(t.a[0]) if t.op == "lty" else \
        {"lfnty": 14, "lstruct": 16, "lopaque": 16, "larr": 17}.get(t.op)

def vtype(I, st, v):
    """LLVM type of an IR value term."""
    if not isinstance(v, T):
        return mk("call:getType", v)
    d = st.get(v, "ltype")
    if d is not None:
        return d
    op, a = v.op, v.a
    if op == "ci":
        return a[0]
    if op == "cf":
        return DBL
    if op in ("null0", "undef0", "carr", "cstruct"):
        return a[0]
    if op == "CreateLoad" or op == "CreatePHI":
        return a[0]
    if op in ("CreateAlloca", "CreateGEP", "CreateGlobalString", "gvar", "rtfn", "lfunc"):
        return PTR
    if op.startswith(("CreateICmp", "CreateFCmp")):
        return I1
    if op in ("CreateSExt", "CreateZExt", "CreateTrunc", "CreateSIToFP", "CreateFPToSI", "CreateBitCast", "CreateIntCast", "CreateZExtOrTrunc", "CreateSExtOrTrunc",
              "CreatePtrToInt", "CreateIntToPtr", "CreateFPCast", "CreateUIToFP", "CreateFPToUI"):
        return a[1]
    if op == "CreateSelect":
        return vtype(I, st, a[1])
    if op in ("CreateNot", "CreateNeg", "CreateFNeg", "CreateAdd", "CreateSub", "CreateMul", "CreateSDiv", "CreateSRem", "CreateAnd",
              "CreateOr", "CreateXor", "CreateShl", "CreateLShr", "CreateFAdd", "CreateFSub", "CreateFMul", "CreateFDiv"):
        for x in a:
            t = vtype(I, st, x)
            if t.op != "call:getType":
                return t
        return vtype(I, st, a[0])
    if op == "CreateCall":
        f = a[0]
        while isinstance(f, T) and f.op == "callee":
            return f.a[0].a[0] if isinstance(f.a[0], T) and f.a[0].op == "lfnty" else mk("call:getType", v)
        if isinstance(f, T) and f.op == "make:llvm::FunctionCallee" and isinstance(f.a[0], T) and f.a[0].op == "lfnty":
            return f.a[0].a[0]
        if isinstance(f, T) and f.op == "rtfn" and isinstance(f.a[1], T) and f.a[1].op == "lfnty":
            return f.a[1].a[0]
    if op in ("v:Address", "call:MakeAddressable"):
        return PTR
    if op == "v:CodeGen" and isinstance(a[0], T):
        if st.get(a[0], "kind") == I.p.enumconst.get("ExprAST::ExprKind::EK_StringExpr", -1):
            return PTR  # a string literal's code is the address of its text
        t = exprtype(I, st, a[0])
        if isinstance(t, T) and I.cls(st, t):
            lt = llvmtype(I, st, t)
            if lt is not None:
                return lt
    if op == "each" or op == "elem":
        return mk("call:getType", v)
    return mk("call:getType", v)

def exprtype(I, st, e):
    t = st.get(e, "m:Type")
    if t is None:
        t = st.get(e, "type")
    return t

def llvmtype(I, st, t):
    """LlvmType() of a type object, by analysing it in a copy of the state."""
    fn = I.p.fn("Types::TypeDecl::LlvmType")
    s2 = st.copy()
    saved = list(I.exits)
    r = I.invoke(fn, t, (), s2)
    I.exits[:] = saved
    vals = {x[0] for x in r}
    return vals.pop() if len(vals) == 1 else None

ONE = lambda v, st: [(v, st)]

def curbb(st):
    v = st.get("glob", "#bb")
    return mk("curbb", 0) if v is None else v

def setbb(st, b):
    st.set("glob", "#bb", b)

def llvm(I, s, n, f, o, vs, st):
    val = lambda v: I.val(st, v)
    line = n["l"]
    fn = I.stack[-1][0] if I.stack else None
    cls, _, m = s.rpartition("::")
    cls = cls[6:]
    def self_():
        if isinstance(o, T) and o.op == "addr":
            return I.known(st, I.load(st, o.a[0]))
        return I.known(st, o) if isinstance(o, T) else o
    if cls in ("IRBuilder", "IRBuilderBase"):
        return builder(I, m, n, f, vs, st, line, fn)
    if s == "llvm::BasicBlock::Create":
        a = [val(v) for v in vs]
        b = mk("bb", st.count("bb"))
        st.add("BB", (a[1] if len(a) > 1 else "", a[2] if len(a) > 2 else NULL), b, fn, line)
        if I.presets.get("#whole") and len(a) > 2 and isinstance(a[2], T):
            st.set(b, "#fn", a[2])
            if st.get(a[2], "#entry") is None:
                st.set(a[2], "#entry", b)
        return ONE(b, st)
    if I.presets.get("#whole"):
        x = self_()
        if s == "llvm::Function::getEntryBlock" and st.get(x, "#entry") is not None:
            return ONE(st.get(x, "#entry"), st)
        if s == "llvm::BasicBlock::getParent" and st.get(x, "#fn") is not None:
            return ONE(st.get(x, "#fn"), st)
        if s == "llvm::Function::empty":
            return ONE(int(st.get(x, "#entry") is None), st)
        if isinstance(x, T) and x.op == "rtfn" and isinstance(x.a[1], T) and x.a[1].op == "lfnty":
            n_ = len(x.a[1].a[1].a)
            if s == "llvm::Function::arg_size":
                return ONE(n_, st)
            args = mk("vec", *[mk("arg", x.a[0], i) for i in range(n_)])
            if s == "llvm::Function::arg_begin":
                return ONE(mk("it", ("v", args), 0), st)
            if s == "llvm::Function::arg_end":
                return ONE(mk("it", ("v", args), n_), st)
            if s == "llvm::Function::args":
                return ONE(args, st)
            if s == "llvm::Function::getArg" and isinstance(val(vs[0]), int):
                return ONE(mk("arg", x.a[0], val(vs[0])), st)
        if s == "llvm::codegen::getFramePointerUsage":
            return ONE(0, st)
    if s in ("llvm::BasicBlock::getParent", "llvm::Instruction::getFunction"):
        return ONE(FN, st)
    if s == "llvm::BasicBlock::begin":
        return ONE(mk("ip", self_()), st)
    if s == "llvm::Function::getEntryBlock":
        return ONE(mk("entrybb", self_()), st)
    if s in ("llvm::StringRef::str", "llvm::Twine::str", "llvm::StringRef::data"):
        return ONE(self_(), st)
    if s == "llvm::FunctionCallee::getCallee":
        v = self_()
        return ONE(v.a[1] if isinstance(v, T) and v.op == "callee" else v, st)
    if s in ("llvm::FunctionCallee::operator=", "llvm::ArrayRef::operator=", "llvm::StringRef::operator=") and isinstance(o, T) and o.op == "addr":
        I.store(st, o.a[0], val(vs[0]))
        return ONE(o, st)
    if s == "llvm::FunctionCallee::operator bool":
        return ONE(I.known(st, lnot(eq(self_(), NULL))), st)
    # ---- types
    if cls in ("Type", "IntegerType", "PointerType") and m.startswith("get"):
        nm = m[3:]
        if nm in ("Int1Ty", "Int8Ty", "Int16Ty", "Int32Ty", "Int64Ty", "DoubleTy", "VoidTy", "FloatTy", "Unqual"):
            k = {"DoubleTy": "double", "VoidTy": "void", "FloatTy": "float", "Unqual": "ptr"}.get(nm) or "i" + nm[3:-2]
            return ONE(lty(k), st)
        if nm == "IntNTy":
            w = val(vs[1])
            return ONE(lty("i%d" % w) if isinstance(w, int) else mk("lintn", w), st)
        if nm == "" and cls == "PointerType":
            return ONE(PTR, st)
        if nm == "" and cls == "IntegerType":
            w = val(vs[1])
            return ONE(lty("i%d" % w) if isinstance(w, int) else mk("lintn", w), st)
        if nm == "PrimitiveSizeInBits":
            t = self_()
            b = bits(t)
            if b is None and t is DBL:
                b = 64
            if b is None and t is PTR:
                b = 0
            return ONE(b if b is not None else mk("primbits", t), st)
        if nm == "ArrayElementType":
            t = self_()
            return ONE(t.a[0] if isinstance(t, T) and t.op == "larr" else mk("eltty", t), st)
        if nm == "TypeID":
            t = self_()
            k = tyid(t)
            return ONE(mk("tyid", t) if k is None else k, st)
        if nm == "IntegerBitWidth" and bits(self_()):
            return ONE(bits(self_()), st)
    if s == "llvm::ArrayType::get":
        return ONE(mk("larr", val(vs[0]), val(vs[1])), st)
    if s == "llvm::ArrayType::getElementType":
        t = self_()
        return ONE(t.a[0] if isinstance(t, T) and t.op == "larr" else mk("eltty", t), st)
    if s == "llvm::StructType::create" or s == "llvm::StructType::get":
        a = [val(v) for v in vs]
        body = next((x for x in a if isinstance(x, T) and x.op in ("vec", "append")), None)
        name = next((x for x in a if isinstance(x, str)), None)
        if name is None:
            name = next((x for x in a[1:] if x is not body), "")
        if body is not None:
            return ONE(mk("lstruct", name, body), st)
        t = mk("lopaque", name, st.count(("lopaque", name)))
        return ONE(t, st)
    if s == "llvm::StructType::setBody":
        t = self_()
        st.set(t, "body", val(vs[0]))
        st.add("setBody", (t, val(vs[0])), None, fn, line)
        return ONE(VOID, st)
    if s == "llvm::StructType::isOpaque":
        t = self_()
        if isinstance(t, T) and t.op == "lopaque":
            return ONE(int(st.get(t, "body") is None), st)
        return ONE(0 if isinstance(t, T) and t.op == "lstruct" else mk("isopaque", t), st)
    if s == "llvm::StructType::getNumElements":
        t = self_()
        if isinstance(t, T) and t.op == "lstruct" and t.a[1].op == "vec":
            return ONE(len(t.a[1].a), st)
        return ONE(mk("numelems", t), st)
    if s == "llvm::FunctionType::get":
        a = [val(v) for v in vs]
        if len(a) == 2:
            return ONE(mk("lfnty", a[0], mk("vec"), a[1]), st)
        return ONE(mk("lfnty", a[0], a[1], a[2]), st)
    if cls == "Type" and m in ("isIntegerTy", "isPointerTy", "isDoubleTy", "isVoidTy", "isArrayTy", "isStructTy", "isFloatingPointTy",
                               "isFloatTy", "isAggregateType", "isFunctionTy", "isSingleValueType", "isVectorTy", "isFirstClassType"):
        t = self_()
        if isinstance(t, T) and t.op in ("lty", "larr", "lstruct", "lopaque", "lfnty", "lintn"):
            if m == "isIntegerTy":
                b = bits(t)
                if vs:
                    return ONE(int(b == val(vs[0])), st)
                return ONE(int(b is not None or t.op == "lintn"), st)
            return ONE(int({"isPointerTy": t is PTR, "isDoubleTy": t is DBL, "isVoidTy": t is VOIDT, "isArrayTy": t.op == "larr",
                            "isFloatingPointTy": t is DBL or t is lty("float"), "isFloatTy": t is lty("float"), "isFunctionTy": t.op == "lfnty",
                            "isVectorTy": False, "isAggregateType": t.op in ("larr", "lstruct", "lopaque"),
                            "isSingleValueType": t is PTR or t is DBL or bool(bits(t)), "isFirstClassType": t is not VOIDT and t.op != "lfnty",
                            "isStructTy": t.op in ("lstruct", "lopaque")}[m]), st)
        return ONE(I.known(st, mk("bool", m, t, *[val(v) for v in vs])), st)
    if s == "llvm::Value::getType":
        return ONE(vtype(I, st, self_()), st)
    if s in ("llvm::Value::setName",):
        return ONE(VOID, st)
    # ---- constants
    if s == "llvm::ConstantInt::get":
        a = [val(v) for v in vs]
        if isinstance(a[0], T) and a[0].op in ("lty", "lintn", "eltty", "call:getType") or (isinstance(a[0], T) and len(a) >= 2 and "Type" in f["pt"][0]):
            v = a[1]
            b = bits(a[0])
            if isinstance(v, int) and b:
                v &= (1 << b) - 1
                if b > 1 and v >> (b - 1):
                    v -= 1 << b
            return ONE(mk("ci", a[0], v), st)
        return ONE(mk("ciap", *a), st)
    if s == "llvm::ConstantFP::get":
        a = [val(v) for v in vs]
        x = a[-1]
        if isinstance(x, T) and x.op.startswith("make:") and len(x.a) >= 1:
            x = x.a[0] if len(x.a) == 1 else x
        return ONE(mk("cf", x), st)
    if s == "llvm::Constant::getNullValue" or s == "llvm::ConstantPointerNull::get":
        t = val(vs[0])
        return ONE(mk("null0", t), st)
    if s == "llvm::UndefValue::get":
        return ONE(mk("undef0", val(vs[0])), st)
    if s == "llvm::ConstantArray::get":
        return ONE(mk("carr", *[val(v) for v in vs]), st)
    if s == "llvm::ConstantStruct::get":
        return ONE(mk("cstruct", *[val(v) for v in vs]), st)
    if s == "llvm::ConstantDataArray::getRaw":
        return ONE(mk("cdata", *[val(v) for v in vs]), st)
    if s == "llvm::ConstantExpr::getBitCast":
        return ONE(val(vs[0]), st)
    # ---- module
    if s == "llvm::Module::getDataLayout":
        return ONE(mk("datalayout"), st)
    if s == "llvm::DataLayout::getTypeAllocSize":
        t = val(vs[0])
        z = allocsize(t)
        return ONE(z if z is not None else mk("allocsize", t), st)
    if s == "llvm::DataLayout::getPrefTypeAlign":
        t = val(vs[0])
        z = prefalign(t)
        return ONE(z if z is not None else mk("prefalign", t), st)
    if s in ("llvm::Align::value", "llvm::TypeSize::operator unsigned long", "llvm::TypeSize::getFixedValue"):
        return ONE(self_(), st)
    if s == "llvm::AllocaInst::getAlign":
        x = self_()
        k = st.get(x, "align")
        if k is None and isinstance(x, T) and x.op == "CreateAlloca":
            k = prefalign(x.a[0])
        return ONE(mk("allocalign", x) if k is None else k, st)
    if s == "llvm::AllocaInst::setAlignment":
        st.set(self_(), "align", val(vs[0]))
        return ONE(VOID, st)
    if s == "llvm::Module::getOrInsertFunction":
        a = [val(v) for v in vs]
        I.rtcalls.add((a[0], a[1], next((x[0] for x in reversed(I.stack) if x[0] != "GetFunction"), "?")))
        r = mk("rtfn", a[0], a[1])
        if I.presets.get("#whole") and isinstance(a[0], str):
            if st.get("glob", "#func:" + a[0]) is None:
                st.set("glob", "#func:" + a[0], r)
        return ONE(r, st)
    if s in ("llvm::Module::getFunction", "llvm::Module::getGlobalVariable", "llvm::Module::getNamedGlobal") and I.presets.get("#whole"):
        a = val(vs[0])
        if isinstance(a, str):
            r = st.get("glob", ("#func:" if s.endswith("getFunction") else "#gvar:") + a)
            return ONE(NULL if r is None else r, st)
    if s == "llvm::PHINode::addIncoming":
        st.add("addIncoming", (self_(), val(vs[0]), val(vs[1])), None, fn, line)
        return ONE(VOID, st)
    if s == "llvm::SwitchInst::addCase":
        st.add("addCase", (self_(), val(vs[0]), val(vs[1])), None, fn, line)
        return ONE(VOID, st)
    return None

def allocsize(t, p=8):
    if not isinstance(t, T):
        return None
    b = bits(t)
    if b:
        return max(1, b // 8)
    if t is PTR:
        return p
    if t is DBL:
        return 8
    if t.op == "larr":
        e = allocsize(t.a[0])
        return None if e is None else mul(e, t.a[1])
    if t.op == "lstruct" and isinstance(t.a[1], T) and t.a[1].op == "vec":
        off = 0
        al = 1
        for e in t.a[1].a:
            z, a = allocsize(e), prefalign(e, True)
            if not isinstance(z, int) or not isinstance(a, int):
                return None
            off = (off + a - 1) // a * a + z
            al = max(al, a)
        return (off + al - 1) // al * al
    return None

def prefalign(t, abi=False):
    if not isinstance(t, T):
        return None
    b = bits(t)
    if b:
        return max(1, b // 8)
    if t is PTR or t is DBL:
        return 8
    if t.op == "larr":
        return prefalign(t.a[0], abi)
    if t.op == "lstruct" and isinstance(t.a[1], T) and t.a[1].op == "vec":
        r = [prefalign(e, True) for e in t.a[1].a]
        return None if None in r else max(r + [1] + ([] if abi else [8]))
    return None

def builder(I, nm, n, f, vs, st, line, fn):
    a = []
    for v, pt in zip(vs, f["pt"]):
        if "llvm::Twine" in pt or "llvm::MDNode" in pt or "llvm::FMFSource" in pt or "Align" in pt:
            continue
        a.append(I.val(st, v))
    if nm == "SetInsertPoint":
        if a[0] is curbb(st):
            return ONE(VOID, st)
        st.add("SetInsertPoint", (a[0],), None, fn, line)
        setbb(st, a[0])
        return ONE(VOID, st)
    if nm == "GetInsertBlock":
        return ONE(curbb(st), st)
    if nm in ("GetInsertPoint", "SetCurrentDebugLocation", "getContext"):
        return ONE(mk("b:" + nm), st)
    if not nm.startswith("Create"):
        return ONE(mk("b:" + nm, *a), st)
    # canonical forms
    while len(a) > 1 and nm not in ("CreateRet", "CreateStore") and a[-1] is NULL:
        a.pop()
    if nm in ("CreateAdd", "CreateSub", "CreateMul", "CreateNeg", "CreateShl", "CreateSDiv", "CreateLShr", "CreateUDiv", "CreateTrunc"):
        a = a[:1] if nm == "CreateNeg" else a[:2]       # wrap flags
    if nm in ("CreateMemCpy", "CreateMemSet", "CreateMemMove"):
        a = a[:3]
    if nm in ("CreateGlobalString",):
        a = a[:1]
    if nm == "CreateGEP":
        a = a[:3]
        if not (isinstance(a[2], T) and a[2].op == "vec"):
            a[2] = mk("vec", a[2])
    if nm == "CreateCall":
        # (callee, args) or (fnty, callee, args)
        cal = a[0]
        if isinstance(cal, T) and cal.op == "lfnty":
            cal, rest = mk("callee", a[0], a[1]), a[2:]
        else:
            rest = a[1:]
        args = rest[0] if rest and isinstance(rest[0], T) else mk("vec")
        a = [cal, args]
    if nm == "CreateLoad":
        a = a[:2]
    if nm == "CreateStore":
        a = a[:2]
    if nm == "CreateAlloca":
        a = a[:1]
        r = mk(nm, a[0], ("#", st.count("alloca")))
        if I.presets.get("#whole"):
            r = mk(nm, a[0], ("#", st.get("glob", "#nalloca") or 0), st.get(curbb(st), "#fn"), I.val(st, vs[-1]))
            st.set("glob", "#nalloca", (st.get("glob", "#nalloca") or 0) + 1)
        st.add(nm, tuple(a), r, fn, line)
        return ONE(r, st)
    if nm in SWAP:
        nm = SWAP[nm]
        a = [a[1], a[0]]
    if nm in COMM and repr(a[1]) < repr(a[0]):
        a = [a[1], a[0]]
    if nm in ("CreateBitCast",) and (a[1] is PTR or vtype(I, st, a[0]) is a[1]):
        return ONE(a[0], st)
    if nm in ("CreateZExt", "CreateSExt", "CreateTrunc") and vtype(I, st, a[0]) is a[1]:
        return ONE(a[0], st)
    r = mk(nm, *a)
    if nm in EFFECTS:
        k = st.count(r)
        if k:
            r = mk(nm, *(tuple(a) + (("#", k),)))
        st.add(nm, tuple(a), r, fn, line)
    return ONE(r, st)
