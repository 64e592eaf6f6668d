// irdump: LLVM bitcode -> JSON, one object per function reachable from the kept roots.
// Everything the verifier reasons about is what this prints; nothing of the code is dropped except
// debug intrinsics and lifetime markers.
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/CGSCCPassManager.h"
#include "llvm/Analysis/LoopAnalysisManager.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugLoc.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
using namespace llvm;

static const DataLayout *DL;

static json::Value ty(Type *t) {
	if (t->isVoidTy())
		return "void";
	if (t->isPointerTy())
		return "ptr";
	if (t->isFloatTy())
		return "f32";
	if (t->isDoubleTy())
		return "f64";
	if (t->isX86_FP80Ty())
		return "f80";
	if (t->isIntegerTy())
		return "i" + std::to_string(t->getIntegerBitWidth());
	if (auto *st = dyn_cast<StructType>(t)) {
		json::Array fs;
		if (st->isOpaque())
			return "opaque";
		auto *sl = DL->getStructLayout(st);
		for (unsigned i = 0; i < st->getNumElements(); i++)
			fs.push_back(json::Array{(int64_t)sl->getElementOffset(i), ty(st->getElementType(i))});
		return json::Object{{"k", "s"}, {"f", std::move(fs)}, {"sz", (int64_t)DL->getTypeAllocSize(t)}};
	}
	if (auto *at = dyn_cast<ArrayType>(t)) {
		json::Array fs;
		int64_t es = DL->getTypeAllocSize(at->getElementType());
		return json::Object{{"k", "a"}, {"n", (int64_t)at->getNumElements()}, {"e", ty(at->getElementType())}, {"es", es}, {"sz", (int64_t)DL->getTypeAllocSize(t)}};
	}
	if (auto *vt = dyn_cast<FixedVectorType>(t)) {
		int64_t es = DL->getTypeStoreSize(vt->getElementType());
		return json::Object{{"k", "v"}, {"n", (int64_t)vt->getNumElements()}, {"e", ty(vt->getElementType())}, {"es", es}, {"sz", (int64_t)DL->getTypeStoreSize(t)}};
	}
	return "unsupported";
}

struct FnCtx {
	std::map<const Value *, int> ids;
	std::map<const BasicBlock *, int> bbs;
};

static json::Value inst(const Instruction *I, FnCtx &C);

static json::Value opnd(const Value *v, FnCtx &C) {
	auto it = C.ids.find(v);
	if (it != C.ids.end())
		return json::Array{"v", it->second};
	if (auto *ci = dyn_cast<ConstantInt>(v)) {
		SmallString<40> s;
		ci->getValue().toString(s, 10, false);
		return json::Array{"c", ty(ci->getType()), std::string(s)};
	}
	if (auto *cf = dyn_cast<ConstantFP>(v)) {
		SmallString<40> s;
		cf->getValueAPF().bitcastToAPInt().toString(s, 10, false);
		return json::Array{"f", ty(cf->getType()), std::string(s)};
	}
	if (isa<ConstantPointerNull>(v))
		return json::Array{"n"};
	if (isa<UndefValue>(v))
		return json::Array{"u", ty(v->getType())};
	if (isa<ConstantAggregateZero>(v))
		return json::Array{"z", ty(v->getType())};
	if (auto *f = dyn_cast<Function>(v))
		return json::Array{"fn", f->getName().str()};
	if (auto *ga = dyn_cast<GlobalAlias>(v)) {
		if (auto *f = dyn_cast<Function>(ga->getAliasee()->stripPointerCasts()))
			return json::Array{"fn", f->getName().str()};
	}
	if (auto *g = dyn_cast<GlobalVariable>(v))
		return json::Array{"g", g->getName().str(), 0};
	if (auto *ca = dyn_cast<ConstantDataSequential>(v)) {
		json::Array es;
		for (unsigned i = 0; i < ca->getNumElements(); i++)
			es.push_back(opnd(ca->getElementAsConstant(i), C));
		return json::Array{"agg", ty(v->getType()), std::move(es)};
	}
	if (auto *ca = dyn_cast<ConstantAggregate>(v)) {
		json::Array es;
		for (unsigned i = 0; i < ca->getNumOperands(); i++)
			es.push_back(opnd(ca->getOperand(i), C));
		return json::Array{"agg", ty(v->getType()), std::move(es)};
	}
	if (auto *ce = dyn_cast<ConstantExpr>(v)) {
		if (ce->getOpcode() == Instruction::GetElementPtr) {
			APInt off(64, 0);
			auto *gep = cast<GEPOperator>(ce);
			if (gep->accumulateConstantOffset(*DL, off)) {
				auto base = opnd(gep->getPointerOperand(), C);
				return json::Array{"ceg", std::move(base), (int64_t)off.getSExtValue()};
			}
		}
		auto *I = ce->getAsInstruction();
		auto r = inst(I, C);
		I->deleteValue();
		return json::Array{"ce", std::move(r)};
	}
	if (isa<MetadataAsValue>(v))
		return json::Array{"md"};
	std::string s;
	raw_string_ostream os(s);
	v->print(os);
	return json::Array{"??", s};
}

static const char *pred(CmpInst::Predicate p) {
	return CmpInst::getPredicateName(p).data();
}
static int ord(AtomicOrdering o) {
	return (int)o;
}

static json::Value inst(const Instruction *I, FnCtx &C) {
	json::Object o;
	o["op"] = std::string(I->getOpcodeName());
	o["ty"] = ty(I->getType());
	if (C.ids.count(I))
		o["id"] = C.ids[I];
	if (auto &dl = I->getDebugLoc()) {
		auto *loc = dl.get();
		o["dl"] = json::Array{loc->getFilename().str(), (int64_t)loc->getLine()};
	}
	auto ops = [&](unsigned n) {
		json::Array a;
		for (unsigned i = 0; i < n; i++)
			a.push_back(opnd(I->getOperand(i), C));
		return a;
	};
	switch (I->getOpcode()) {
		case Instruction::GetElementPtr: {
			auto *gep = cast<GEPOperator>(I);
			MapVector<Value *, APInt> vars;
			APInt c(64, 0);
			o["op"] = "gep";
			o["base"] = opnd(gep->getPointerOperand(), C);
			if (!gep->collectOffset(*DL, 64, vars, c))
				o["op"] = "unsupported-gep";
			o["c"] = (int64_t)c.getSExtValue();
			json::Array va;
			for (auto &[v, s] : vars)
				va.push_back(json::Array{(int64_t)s.getSExtValue(), opnd(v, C), ty(v->getType())});
			o["vars"] = std::move(va);
			break;
		}
		case Instruction::ICmp:
		case Instruction::FCmp:
			o["p"] = pred(cast<CmpInst>(I)->getPredicate());
			o["a"] = ops(2);
			o["at"] = ty(I->getOperand(0)->getType());
			break;
		case Instruction::PHI: {
			auto *p = cast<PHINode>(I);
			json::Array in;
			for (unsigned i = 0; i < p->getNumIncomingValues(); i++)
				in.push_back(json::Array{C.bbs[p->getIncomingBlock(i)], opnd(p->getIncomingValue(i), C)});
			o["in"] = std::move(in);
			break;
		}
		case Instruction::Br: {
			auto *b = cast<BranchInst>(I);
			if (b->isConditional()) {
				o["c"] = opnd(b->getCondition(), C);
				o["t"] = C.bbs[b->getSuccessor(0)];
				o["e"] = C.bbs[b->getSuccessor(1)];
			} else
				o["t"] = C.bbs[b->getSuccessor(0)];
			break;
		}
		case Instruction::Switch: {
			auto *s = cast<SwitchInst>(I);
			o["c"] = opnd(s->getCondition(), C);
			o["at"] = ty(s->getCondition()->getType());
			o["d"] = C.bbs[s->getDefaultDest()];
			json::Array cs;
			for (auto &c : s->cases())
				cs.push_back(json::Array{opnd(c.getCaseValue(), C), C.bbs[c.getCaseSuccessor()]});
			o["cases"] = std::move(cs);
			break;
		}
		case Instruction::Call:
		case Instruction::Invoke: {
			auto *cb = cast<CallBase>(I);
			o["op"] = "call";
			json::Array a, ats;
			for (unsigned i = 0; i < cb->arg_size(); i++) {
				a.push_back(opnd(cb->getArgOperand(i), C));
				if (cb->isByValArgument(i))
					ats.push_back(json::Object{{"byval", (int64_t)DL->getTypeAllocSize(cb->getParamByValType(i))}});
				else
					ats.push_back(ty(cb->getArgOperand(i)->getType()));
			}
			o["a"] = std::move(a);
			o["at"] = std::move(ats);
			o["f"] = opnd(cb->getCalledOperand(), C);
			if (auto *f = cb->getCalledFunction(); f && f->isIntrinsic())
				o["intr"] = true;
			if (cb->isInlineAsm())
				o["op"] = "asm";
			if (auto *iv = dyn_cast<InvokeInst>(I)) {
				o["t"] = C.bbs[iv->getNormalDest()];
				o["inv"] = true;
			}
			break;
		}
		case Instruction::Alloca: {
			auto *a = cast<AllocaInst>(I);
			o["sz"] = (int64_t)DL->getTypeAllocSize(a->getAllocatedType());
			o["n"] = opnd(a->getArraySize(), C);
			o["al"] = (int64_t)a->getAlign().value();
			break;
		}
		case Instruction::Load: {
			auto *l = cast<LoadInst>(I);
			o["a"] = ops(1);
			o["ord"] = ord(l->getOrdering());
			o["al"] = (int64_t)l->getAlign().value();
			o["vol"] = l->isVolatile();
			break;
		}
		case Instruction::Store: {
			auto *s = cast<StoreInst>(I);
			o["a"] = ops(2);
			o["st"] = ty(s->getValueOperand()->getType());
			o["ord"] = ord(s->getOrdering());
			o["al"] = (int64_t)s->getAlign().value();
			o["vol"] = s->isVolatile();
			break;
		}
		case Instruction::AtomicCmpXchg: {
			auto *x = cast<AtomicCmpXchgInst>(I);
			o["a"] = ops(3);
			o["st"] = ty(x->getNewValOperand()->getType());
			o["ord"] = ord(x->getSuccessOrdering());
			o["ford"] = ord(x->getFailureOrdering());
			o["weak"] = x->isWeak();
			break;
		}
		case Instruction::AtomicRMW: {
			auto *x = cast<AtomicRMWInst>(I);
			o["a"] = ops(2);
			o["st"] = ty(x->getValOperand()->getType());
			o["ord"] = ord(x->getOrdering());
			o["rmw"] = AtomicRMWInst::getOperationName(x->getOperation()).str();
			break;
		}
		case Instruction::Fence:
			o["ord"] = ord(cast<FenceInst>(I)->getOrdering());
			o["ss"] = (int64_t)cast<FenceInst>(I)->getSyncScopeID();
			break;
		case Instruction::ExtractValue: {
			o["a"] = ops(1);
			json::Array ix;
			for (auto i : cast<ExtractValueInst>(I)->indices())
				ix.push_back((int64_t)i);
			o["ix"] = std::move(ix);
			break;
		}
		case Instruction::InsertValue: {
			o["a"] = ops(2);
			json::Array ix;
			for (auto i : cast<InsertValueInst>(I)->indices())
				ix.push_back((int64_t)i);
			o["ix"] = std::move(ix);
			break;
		}
		case Instruction::ShuffleVector: {
			o["a"] = ops(2);
			json::Array m;
			for (int i : cast<ShuffleVectorInst>(I)->getShuffleMask())
				m.push_back((int64_t)i);
			o["m"] = std::move(m);
			o["at"] = ty(I->getOperand(0)->getType());
			break;
		}
		default:
			o["a"] = ops(I->getNumOperands());
			if (I->getNumOperands())
				o["at"] = ty(I->getOperand(0)->getType());
			if (auto *ob = dyn_cast<OverflowingBinaryOperator>(I)) {
				o["nsw"] = ob->hasNoSignedWrap();
				o["nuw"] = ob->hasNoUnsignedWrap();
			}
			break;
	}
	return o;
}

static void flatten(const Constant *c, int64_t off, json::Array &out, FnCtx &C) {
	Type *t = c->getType();
	if (isa<ConstantAggregateZero>(c)) {
		out.push_back(json::Array{off, "zero", (int64_t)DL->getTypeAllocSize(t)});
		return;
	}
	if (isa<UndefValue>(c))
		return;
	if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
		int64_t es = DL->getTypeAllocSize(cd->getElementType());
		for (unsigned i = 0; i < cd->getNumElements(); i++)
			flatten(cd->getElementAsConstant(i), off + i * es, out, C);
		return;
	}
	if (auto *ca = dyn_cast<ConstantArray>(c)) {
		int64_t es = DL->getTypeAllocSize(ca->getType()->getElementType());
		for (unsigned i = 0; i < ca->getNumOperands(); i++)
			flatten(cast<Constant>(ca->getOperand(i)), off + i * es, out, C);
		return;
	}
	if (auto *cs = dyn_cast<ConstantStruct>(c)) {
		auto *sl = DL->getStructLayout(cs->getType());
		for (unsigned i = 0; i < cs->getNumOperands(); i++)
			flatten(cast<Constant>(cs->getOperand(i)), off + sl->getElementOffset(i), out, C);
		return;
	}
	out.push_back(json::Array{off, "val", ty(t), opnd(c, C)});
}

int main(int argc, char **argv) {
	LLVMContext ctx;
	SMDiagnostic err;
	auto M = parseIRFile(argv[1], err, ctx);
	if (!M) {
		err.print("irdump", errs());
		return 1;
	}
	DL = &M->getDataLayout();
	PassBuilder PB;
	LoopAnalysisManager LAM;
	FunctionAnalysisManager FAM;
	CGSCCAnalysisManager CGAM;
	ModuleAnalysisManager MAM;
	PB.registerModuleAnalyses(MAM);
	PB.registerCGSCCAnalyses(CGAM);
	PB.registerFunctionAnalyses(FAM);
	PB.registerLoopAnalyses(LAM);
	PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
	ModulePassManager MPM;
	const char *pipe = argc > 2 ? argv[2] : "function(sroa,simplifycfg,early-cse,simplifycfg)";
	if (auto e = PB.parsePassPipeline(MPM, pipe)) {
		errs() << "bad pipeline\n";
		return 1;
	}
	MPM.run(*M, MAM);

	json::Object top;
	json::Object fns;
	for (auto &F : *M) {
		json::Object f;
		f["dem"] = demangle(F.getName().str());
		f["ret"] = ty(F.getReturnType());
		f["noreturn"] = F.doesNotReturn();
		json::Array args;
		FnCtx C;
		int n = 0;
		for (auto &a : F.args()) {
			C.ids[&a] = n++;
			if (a.hasByValAttr())
				args.push_back(json::Object{{"byval", (int64_t)DL->getTypeAllocSize(a.getParamByValType())}});
			else
				args.push_back(ty(a.getType()));
		}
		f["args"] = std::move(args);
		if (F.isDeclaration()) {
			f["decl"] = true;
			fns[F.getName()] = std::move(f);
			continue;
		}
		if (auto *sp = F.getSubprogram())
			f["file"] = sp->getFilename().str();
		int b = 0;
		for (auto &B : F)
			C.bbs[&B] = b++;
		for (auto &I : instructions(F))
			if (!I.getType()->isVoidTy())
				C.ids[&I] = n++;
		json::Array blocks;
		for (auto &B : F) {
			json::Array is;
			for (auto &I : B) {
				if (isa<DbgInfoIntrinsic>(I))
					continue;
				is.push_back(inst(&I, C));
			}
			blocks.push_back(std::move(is));
		}
		f["blocks"] = std::move(blocks);
		DominatorTree DT(F);
		LoopInfo LI(DT);
		json::Array loops;
		for (auto *L : LI.getLoopsInPreorder()) {
			json::Array bl;
			for (auto *B : L->blocks())
				bl.push_back(C.bbs[B]);
			loops.push_back(json::Object{{"h", C.bbs[L->getHeader()]}, {"b", std::move(bl)}});
		}
		f["loops"] = std::move(loops);
		fns[F.getName()] = std::move(f);
	}
	top["fns"] = std::move(fns);
	json::Object gs;
	for (auto &G : M->globals()) {
		json::Object g;
		g["sz"] = (int64_t)DL->getTypeAllocSize(G.getValueType());
		g["const"] = G.isConstant();
		g["al"] = (int64_t)G.getAlign().valueOrOne().value();
		if (G.hasInitializer()) {
			FnCtx C;
			json::Array out;
			flatten(G.getInitializer(), 0, out, C);
			g["init"] = std::move(out);
		}
		gs[G.getName()] = std::move(g);
	}
	top["globals"] = std::move(gs);
	outs() << json::Value(std::move(top)) << "\n";
	return 0;
}
