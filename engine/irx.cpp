// irx: reads LLVM bitcode files produced from the tree under analysis, promotes
// stack slots to SSA (SROA/mem2reg) and writes one compact JSON description per
// translation unit. Nothing here decides anything; the rules are in Python.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/Scalar/SROA.h>
#include <llvm/Transforms/Utils/Mem2Reg.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/FileSystem.h>
#include <llvm/ADT/SmallString.h>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

struct Out {
	raw_ostream &os;
	bool first = true;
	std::vector<bool> st;
	explicit Out(raw_ostream &o) : os(o) {}
	void sep() { if (!st.empty()) { if (st.back()) os << ','; st.back() = true; } }
	void ab() { sep(); os << '['; st.push_back(false); }
	void ae() { os << ']'; st.pop_back(); }
	void ob() { sep(); os << '{'; st.push_back(false); }
	void oe() { os << '}'; st.pop_back(); }
	void raws(StringRef s) {
		os << '"';
		for (unsigned char c : s) {
			if (c == '"' || c == '\\') os << '\\' << c;
			else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); os << b; }
			else os << c;
		}
		os << '"';
	}
	void s(StringRef v) { sep(); raws(v); }
	void i(int64_t v) { sep(); os << v; }
	void u(uint64_t v) { sep(); os << v; }
	void null() { sep(); os << "null"; }
	void key(StringRef k) { sep(); raws(k); os << ':'; st.back() = false; }
	void kd() { st.back() = true; }
};

static const DIType *strip(const DIType *t) {
	while (t) {
		if (auto *d = dyn_cast<DIDerivedType>(t)) {
			switch (d->getTag()) {
				case dwarf::DW_TAG_typedef: case dwarf::DW_TAG_const_type:
				case dwarf::DW_TAG_volatile_type: case dwarf::DW_TAG_restrict_type:
				case dwarf::DW_TAG_atomic_type:
					t = d->getBaseType(); continue;
				default: return t;
			}
		}
		return t;
	}
	return nullptr;
}
static std::string tyname(const DIType *t, int depth = 0) {
	if (!t) return "void";
	if (depth > 6) return "?";
	if (auto *d = dyn_cast<DIDerivedType>(t)) {
		switch (d->getTag()) {
			case dwarf::DW_TAG_pointer_type: return tyname(d->getBaseType(), depth + 1) + "*";
			case dwarf::DW_TAG_const_type: return tyname(d->getBaseType(), depth + 1);
			case dwarf::DW_TAG_volatile_type: return tyname(d->getBaseType(), depth + 1);
			case dwarf::DW_TAG_restrict_type: return tyname(d->getBaseType(), depth + 1);
			default:
				if (!d->getName().empty()) return d->getName().str();
				return tyname(d->getBaseType(), depth + 1);
		}
	}
	if (auto *c = dyn_cast<DICompositeType>(t)) {
		if (c->getTag() == dwarf::DW_TAG_array_type) return tyname(c->getBaseType(), depth + 1) + "[]";
		std::string n = c->getName().str();
		if (n.empty()) n = "anon";
		if (c->getTag() == dwarf::DW_TAG_enumeration_type) return "enum " + n;
		if (c->getTag() == dwarf::DW_TAG_union_type) return "union " + n;
		return "struct " + n;
	}
	if (isa<DISubroutineType>(t)) return "fn";
	return t->getName().str();
}

struct Ctx {
	Module &M; const DataLayout &DL; Out &o;
	std::map<const StructType *, const DICompositeType *> sdi;
	std::map<std::string, const DICompositeType *> byname;
	std::map<const StructType *, std::string> anon;
	Ctx(Module &m, Out &out) : M(m), DL(m.getDataLayout()), o(out) {}

	void bind(StructType *st, const DICompositeType *c) {
		if (!st || !c || sdi.count(st)) return;
		sdi[st] = c;
		if (st->isOpaque() || !st->isSized()) return;
		const StructLayout *sl = DL.getStructLayout(st);
		for (unsigned i = 0; i < st->getNumElements(); i++) {
			Type *et = st->getElementType(i);
			while (auto *at = dyn_cast<ArrayType>(et)) et = at->getElementType();
			if (auto *es = dyn_cast<StructType>(et)) {
				std::string mn;
				const DIType *mt = member(c, sl->getElementOffset(i), &mn);
				if (!anon.count(es)) anon[es] = sname(st) + "." + mn;
				mt = strip(mt);
				while (mt && isa<DICompositeType>(mt) && cast<DICompositeType>(mt)->getTag() == dwarf::DW_TAG_array_type)
					mt = strip(cast<DICompositeType>(mt)->getBaseType());
				if (mt) if (auto *mc = dyn_cast<DICompositeType>(mt)) bind(es, mc);
			}
		}
	}
	const DIType *member(const DICompositeType *c, uint64_t off, std::string *name) {
		for (auto *e : c->getElements()) {
			auto *d = dyn_cast_or_null<DIDerivedType>(e);
			if (!d || d->getTag() != dwarf::DW_TAG_member) continue;
			if (d->isStaticMember()) continue;
			if (d->getOffsetInBits() == off * 8) {
				if (name) *name = d->getName().str();
				return d->getBaseType();
			}
		}
		// bitfields / padding: last member starting before
		const DIDerivedType *best = nullptr;
		for (auto *e : c->getElements()) {
			auto *d = dyn_cast_or_null<DIDerivedType>(e);
			if (!d || d->getTag() != dwarf::DW_TAG_member) continue;
			if (d->getOffsetInBits() <= off * 8 && (!best || d->getOffsetInBits() > best->getOffsetInBits())) best = d;
		}
		if (best && best->getOffsetInBits() + best->getSizeInBits() > off * 8) {
			if (name) *name = best->getName().str();
			return best->getBaseType();
		}
		return nullptr;
	}
	void collect() {
		DebugInfoFinder f; f.processModule(M);
		for (auto *t : f.types())
			if (auto *c = dyn_cast<DICompositeType>(t)) {
				if (c->isForwardDecl()) continue;
				if (c->getTag() != dwarf::DW_TAG_structure_type && c->getTag() != dwarf::DW_TAG_class_type && c->getTag() != dwarf::DW_TAG_union_type) continue;
				if (!c->getName().empty() && !byname.count(c->getName().str())) byname[c->getName().str()] = c;
			}
		// typedef'd anonymous structs: the IR name is the typedef's
		for (auto *t : f.types())
			if (auto *d = dyn_cast<DIDerivedType>(t))
				if (d->getTag() == dwarf::DW_TAG_typedef && !d->getName().empty() && !byname.count(d->getName().str()))
					if (auto *c = dyn_cast_or_null<DICompositeType>(strip(d->getBaseType())))
						byname[d->getName().str()] = c;
		for (auto *st : M.getIdentifiedStructTypes()) {
			StringRef n = st->getName();
			n.consume_front("struct."); n.consume_front("union."); n.consume_front("class.");
			if (n.starts_with("anon")) continue;
			auto it = byname.find(n.str());
			if (it == byname.end()) {
				size_t p = n.rfind('.');
				if (p != StringRef::npos) it = byname.find(n.substr(0, p).str());
			}
			if (it != byname.end()) bind(st, it->second);
		}
	}
	std::string sname(StructType *st) {
		if (auto it = sdi.find(st); it != sdi.end() && !it->second->getName().empty()) return it->second->getName().str();
		if (auto it = anon.find(st); it != anon.end() && (!st->hasName() || st->getName().contains("anon"))) return it->second;
		if (!st->hasName()) return "literal";
		StringRef n = st->getName();
		n.consume_front("struct."); n.consume_front("union.");
		return n.str();
	}
	std::string fname(StructType *st, unsigned idx, uint64_t *off) {
		const StructLayout *sl = DL.getStructLayout(st);
		*off = sl->getElementOffset(idx);
		if (auto it = sdi.find(st); it != sdi.end()) {
			std::string n; const DIType *t = member(it->second, *off, &n);
			if (t) { if (n.empty()) n = "@" + std::to_string(*off); return n; }
		}
		return "#" + std::to_string(idx);
	}
};

struct FnW {
	Ctx &c; Out &o; std::map<const Value *, int> ids; std::map<const BasicBlock *, int> bbs;
	std::map<const Value *, std::string> names;
	FnW(Ctx &cc) : c(cc), o(cc.o) {}

	void cexpr_gep(const GEPOperator *g) {
		o.ab(); o.s("ge"); val(g->getPointerOperand()); steps(g); o.ae();
	}
	void steps(const GEPOperator *g) {
		o.ab();
		Type *cur = g->getSourceElementType();
		bool firstIdx = true;
		for (auto it = g->idx_begin(); it != g->idx_end(); ++it) {
			const Value *v = *it;
			if (firstIdx) {
				firstIdx = false;
				if (auto *ci = dyn_cast<ConstantInt>(v); ci && ci->isZero()) continue;
				o.ab(); o.s("a"); val(v); o.u(cur->isSized() ? c.DL.getTypeAllocSize(cur).getFixedValue() : 0); o.ae();
				continue;
			}
			if (auto *st = dyn_cast<StructType>(cur)) {
				unsigned idx = cast<ConstantInt>(v)->getZExtValue();
				uint64_t off; std::string fn = c.fname(st, idx, &off);
				o.ab(); o.s("f"); o.s(c.sname(st)); o.s(fn); o.u(off); o.ae();
				cur = st->getElementType(idx);
			} else if (auto *at = dyn_cast<ArrayType>(cur)) {
				cur = at->getElementType();
				o.ab(); o.s("e"); val(v); o.u(c.DL.getTypeAllocSize(cur).getFixedValue()); o.u(at->getNumElements()); o.ae();
			} else break;
		}
		o.ae();
	}
	void val(const Value *v) {
		auto it = ids.find(v);
		if (it != ids.end()) { o.i(it->second); return; }
		if (auto *ci = dyn_cast<ConstantInt>(v)) {
			o.ab(); o.s("i");
			o.sep(); SmallString<40> s; ci->getValue().toString(s, 10, false); o.os << s;
			o.u(ci->getBitWidth()); o.ae(); return;
		}
		if (isa<ConstantPointerNull>(v)) { o.ab(); o.s("n"); o.ae(); return; }
		if (isa<ConstantFP>(v)) { o.ab(); o.s("fp"); SmallString<32> s; cast<ConstantFP>(v)->getValueAPF().toString(s); o.s(s); o.ae(); return; }
		if (auto *g = dyn_cast<GlobalValue>(v)) { o.ab(); o.s("g"); o.s(g->getName()); o.ae(); return; }
		if (isa<UndefValue>(v)) { o.ab(); o.s("u"); o.ae(); return; }
		if (auto *ce = dyn_cast<ConstantExpr>(v)) {
			if (auto *g = dyn_cast<GEPOperator>(ce)) { cexpr_gep(g); return; }
			if (ce->isCast()) { val(ce->getOperand(0)); return; }
			o.ab(); o.s("ce"); o.s(ce->getOpcodeName()); for (auto &op : ce->operands()) val(op); o.ae(); return;
		}
		if (isa<ConstantAggregateZero>(v)) { o.ab(); o.s("z"); o.ae(); return; }
		if (auto *cs = dyn_cast<ConstantDataArray>(v)) {
			if (cs->isString()) { o.ab(); o.s("s"); o.s(cs->getAsString()); o.ae(); return; }
			o.ab(); o.s("arr"); o.ab();
			for (unsigned i = 0; i < cs->getNumElements(); i++) val(cs->getElementAsConstant(i));
			o.ae(); o.ae(); return;
		}
		if (auto *ca = dyn_cast<ConstantArray>(v)) {
			o.ab(); o.s("arr"); o.ab(); for (auto &op : ca->operands()) val(op); o.ae(); o.ae(); return;
		}
		if (auto *cs = dyn_cast<ConstantStruct>(v)) {
			StructType *st = cs->getType();
			o.ab(); o.s("st"); o.s(c.sname(st)); o.ab();
			for (unsigned i = 0; i < st->getNumElements(); i++) {
				uint64_t off = 0; std::string fn = c.fname(st, i, &off);
				o.ab(); o.s(fn); o.u(off); val(cs->getOperand(i)); o.ae();
			}
			o.ae(); o.ae(); return;
		}
		o.ab(); o.s("?"); o.ae();
	}
	static unsigned bits(Type *t, const DataLayout &dl) {
		if (t->isIntegerTy()) return t->getIntegerBitWidth();
		if (t->isPointerTy()) return 64;
		if (t->isSized()) return dl.getTypeSizeInBits(t).getFixedValue();
		return 0;
	}
	std::string tstr(Type *t) {
		if (t->isVoidTy()) return "v";
		if (t->isIntegerTy()) return "i" + std::to_string(t->getIntegerBitWidth());
		if (t->isPointerTy()) return "p";
		if (t->isFloatingPointTy()) return "f";
		if (auto *st = dyn_cast<StructType>(t)) return "S:" + c.sname(st);
		if (auto *at = dyn_cast<ArrayType>(t)) return "A" + std::to_string(at->getNumElements()) + ":" + tstr(at->getElementType());
		return "x";
	}
	void run(Function &F) {
		int n = 0;
		for (auto &a : F.args()) ids[&a] = n++;
		int b = 0;
		for (auto &bb : F) {
			bbs[&bb] = b++;
			for (auto &i : bb) {
				if (isa<DbgInfoIntrinsic>(i)) continue;
				ids[&i] = n++;
			}
		}
		for (auto &bb : F) for (auto &i : bb) {
			if (auto *d = dyn_cast<DbgVariableIntrinsic>(&i)) {
				if (d->getNumVariableLocationOps() != 1) continue;
				const Value *v = d->getVariableLocationOp(0);
				if (!v || isa<Constant>(v)) continue;
				if (!names.count(v)) names[v] = d->getVariable()->getName().str();
			}
		}
		o.ob();
		o.key("name"); o.s(F.getName()); o.kd();
		o.key("internal"); o.i(F.hasLocalLinkage()); o.kd();
		o.key("linkonce"); o.i(F.hasLinkOnceLinkage() || F.hasAvailableExternallyLinkage()); o.kd();
		DISubprogram *sp = F.getSubprogram();
		o.key("line"); o.i(sp ? sp->getLine() : 0); o.kd();
		o.key("file"); o.s(sp ? sp->getFilename() : ""); o.kd();
		o.key("dir"); o.s(sp ? sp->getDirectory() : ""); o.kd();
		o.key("ret"); o.s(tstr(F.getReturnType())); o.kd();
		o.key("vararg"); o.i(F.isVarArg()); o.kd();
		o.key("params"); o.ab();
		for (auto &a : F.args()) {
			std::string ty;
			if (sp && sp->getType()) {
				auto ta = sp->getType()->getTypeArray();
				if (ta && a.getArgNo() + 1 < ta.size()) ty = tyname(ta[a.getArgNo() + 1]);
			}
			o.ab(); o.s(names.count(&a) ? names[&a] : ""); o.s(tstr(a.getType())); o.s(ty); o.ae();
		}
		o.ae(); o.kd();
		std::string rty;
		if (sp && sp->getType()) { auto ta = sp->getType()->getTypeArray(); if (ta && ta.size()) rty = tyname(ta[0]); }
		o.key("rty"); o.s(rty); o.kd();
		o.key("names"); o.ob();
		for (auto &kv : names) if (ids.count(kv.first)) { o.key(std::to_string(ids[kv.first])); o.s(kv.second); o.kd(); }
		o.oe(); o.kd();
		o.key("bb"); o.ab();
		for (auto &bb : F) {
			o.ab();
			for (auto &i : bb) { if (isa<DbgInfoIntrinsic>(i)) continue; inst(i); }
			o.ae();
		}
		o.ae(); o.kd();
		o.oe();
	}
	void bbr(const BasicBlock *b) { o.i(bbs[b]); }
	void inst(Instruction &i) {
		o.ab();
		auto head = [&](const char *op) { o.s(op); o.i(ids[&i]); const DebugLoc &d = i.getDebugLoc(); o.i(d ? d.getLine() : 0); };
		if (auto *x = dyn_cast<AllocaInst>(&i)) {
			head("alloca"); o.s(tstr(x->getAllocatedType()));
			auto sz = x->getAllocationSize(c.DL); o.i(sz ? (int64_t)sz->getFixedValue() : -1);
		} else if (auto *x = dyn_cast<LoadInst>(&i)) {
			head("load"); val(x->getPointerOperand()); o.s(tstr(x->getType())); o.i(bits(x->getType(), c.DL)); o.i(x->isAtomic() || x->isVolatile());
		} else if (auto *x = dyn_cast<StoreInst>(&i)) {
			head("store"); val(x->getValueOperand()); val(x->getPointerOperand()); o.s(tstr(x->getValueOperand()->getType())); o.i(bits(x->getValueOperand()->getType(), c.DL)); o.i(x->isAtomic() || x->isVolatile());
		} else if (auto *x = dyn_cast<GetElementPtrInst>(&i)) {
			head("gep"); val(x->getPointerOperand()); steps(cast<GEPOperator>(x));
		} else if (auto *x = dyn_cast<CallBase>(&i)) {
			head("call");
			const Value *cv = x->getCalledOperand()->stripPointerCasts();
			if (isa<InlineAsm>(cv)) { o.ab(); o.s("asm"); o.ae(); } else val(cv);
			o.ab(); for (auto &a : x->args()) {
				if (auto *mv = dyn_cast<MetadataAsValue>(a.get())) { (void)mv; o.ab(); o.s("u"); o.ae(); } else val(a.get());
			} o.ae();
			o.s(tstr(x->getType()));
			o.i(x->doesNotReturn());
			if (auto *iv = dyn_cast<InvokeInst>(x)) { bbr(iv->getNormalDest()); bbr(iv->getUnwindDest()); }
		} else if (auto *x = dyn_cast<BranchInst>(&i)) {
			head("br");
			if (x->isConditional()) { val(x->getCondition()); bbr(x->getSuccessor(0)); bbr(x->getSuccessor(1)); }
			else { o.null(); bbr(x->getSuccessor(0)); }
		} else if (auto *x = dyn_cast<SwitchInst>(&i)) {
			head("switch"); val(x->getCondition()); bbr(x->getDefaultDest());
			o.ab(); for (auto &cs : x->cases()) { o.ab(); o.sep(); SmallString<40> s; cs.getCaseValue()->getValue().toString(s, 10, false); o.os << s; bbr(cs.getCaseSuccessor()); o.ae(); } o.ae();
		} else if (auto *x = dyn_cast<ReturnInst>(&i)) {
			head("ret"); if (x->getReturnValue()) val(x->getReturnValue()); else o.null();
		} else if (auto *x = dyn_cast<PHINode>(&i)) {
			head("phi"); o.ab(); for (unsigned k = 0; k < x->getNumIncomingValues(); k++) { o.ab(); bbr(x->getIncomingBlock(k)); val(x->getIncomingValue(k)); o.ae(); } o.ae(); o.s(tstr(x->getType()));
		} else if (auto *x = dyn_cast<ICmpInst>(&i)) {
			head("icmp"); o.s(CmpInst::getPredicateName(x->getPredicate())); val(x->getOperand(0)); val(x->getOperand(1)); o.i(bits(x->getOperand(0)->getType(), c.DL));
		} else if (auto *x = dyn_cast<BinaryOperator>(&i)) {
			head("bin"); o.s(x->getOpcodeName()); val(x->getOperand(0)); val(x->getOperand(1)); o.i(bits(x->getType(), c.DL));
		} else if (auto *x = dyn_cast<CastInst>(&i)) {
			head("cast"); o.s(x->getOpcodeName()); val(x->getOperand(0)); o.i(bits(x->getSrcTy(), c.DL)); o.i(bits(x->getDestTy(), c.DL)); 
		} else if (auto *x = dyn_cast<SelectInst>(&i)) {
			head("select"); val(x->getCondition()); val(x->getTrueValue()); val(x->getFalseValue());
		} else if (isa<UnreachableInst>(i)) {
			head("unreachable");
		} else {
			head("other"); o.s(i.getOpcodeName()); o.ab(); for (auto &op : i.operands()) { if (isa<BasicBlock>(op)) continue; val(op); } o.ae(); o.s(tstr(i.getType()));
			if (i.isTerminator()) { o.ab(); for (unsigned k = 0; k < i.getNumSuccessors(); k++) bbr(i.getSuccessor(k)); o.ae(); }
		}
		o.ae();
	}
};

int main(int argc, char **argv) {
	if (argc < 4) { errs() << "usage: irx in.bc out.json relpath\n"; return 2; }
	LLVMContext lc; SMDiagnostic err;
	auto M = parseIRFile(argv[1], err, lc);
	if (!M) { err.print("irx", errs()); return 2; }
	{
		PassBuilder pb; LoopAnalysisManager lam; FunctionAnalysisManager fam; CGSCCAnalysisManager cam; ModuleAnalysisManager mam;
		pb.registerModuleAnalyses(mam); pb.registerCGSCCAnalyses(cam); pb.registerFunctionAnalyses(fam); pb.registerLoopAnalyses(lam);
		pb.crossRegisterProxies(lam, fam, cam, mam);
		FunctionPassManager fpm; fpm.addPass(SROAPass(SROAOptions::PreserveCFG)); fpm.addPass(PromotePass());
		for (auto &F : *M) if (!F.isDeclaration()) fpm.run(F, fam);
	}
	std::error_code ec; raw_fd_ostream os(argv[2], ec);
	if (ec) { errs() << ec.message() << "\n"; return 2; }
	Out o(os); Ctx c(*M, o); c.collect();
	o.ob();
	o.key("path"); o.s(argv[3]); o.kd();
	o.key("globals"); o.ob();
	for (auto &g : M->globals()) {
		FnW w(c);
		o.key(g.getName()); o.ab();
		o.i(g.isConstant()); o.i(g.hasLocalLinkage()); o.s(w.tstr(g.getValueType()));
		if (g.hasInitializer()) w.val(g.getInitializer()); else o.null();
		SmallVector<DIGlobalVariableExpression *, 1> gv; g.getDebugInfo(gv);
		o.i(gv.empty() ? 0 : gv[0]->getVariable()->getLine());
		o.ae(); o.kd();
	}
	o.oe(); o.kd();
	o.key("structs"); o.ob();
	{
		std::set<std::string> done;
		for (auto *st : M->getIdentifiedStructTypes()) {
			if (st->isOpaque() || !st->isSized()) continue;
			std::string n = c.sname(st); if (done.count(n)) continue; done.insert(n);
			o.key(n); o.ab(); o.u(c.DL.getTypeAllocSize(st).getFixedValue()); o.ab();
			if (auto it = c.sdi.find(st); it != c.sdi.end())
				for (auto *e : it->second->getElements()) if (auto *d = dyn_cast_or_null<DIDerivedType>(e)) if (d->getTag() == dwarf::DW_TAG_member) {
					o.ab(); o.s(d->getName()); o.u(d->getOffsetInBits() / 8); o.u(d->getSizeInBits()); o.s(tyname(d->getBaseType())); o.ae();
				}
			o.ae(); o.ae(); o.kd();
		}
	}
	o.oe(); o.kd();
	o.key("enums"); o.ob();
	{
		DebugInfoFinder f; f.processModule(*M); std::set<std::string> done;
		for (auto *t : f.types()) if (auto *ct = dyn_cast<DICompositeType>(t)) if (ct->getTag() == dwarf::DW_TAG_enumeration_type && !ct->getName().empty() && done.insert(ct->getName().str()).second) {
			o.key(ct->getName()); o.ob();
			for (auto *e : ct->getElements()) if (auto *en = dyn_cast_or_null<DIEnumerator>(e)) { o.key(en->getName()); o.i(en->getValue().getSExtValue()); o.kd(); }
			o.oe(); o.kd();
		}
	}
	o.oe(); o.kd();
	o.key("decls"); o.ob();
	for (auto &F : *M) if (F.isDeclaration() && !F.isIntrinsic()) { FnW w(c); o.key(F.getName()); o.s(w.tstr(F.getReturnType())); o.kd(); }
	o.oe(); o.kd();
	o.key("funcs"); o.ab();
	for (auto &F : *M) if (!F.isDeclaration()) { FnW w(c); w.run(F); }
	o.ae(); o.kd();
	o.oe(); os << "\n";
	return 0;
}
