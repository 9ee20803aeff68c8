// irdump: link LLVM bitcode modules, optionally inline selected functions, normalise with a pass
// pipeline and print the functions as JSON for the Python rules in /verif/sa.
//
//   irdump -o OUT.json [--passes P] [--inline REGEX]... [--keep REGEX]... [--only REGEX] A.bc B.bc ...
//
// Nothing is executed: this only reads and rewrites IR.
#include "llvm/ADT/DenseMap.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include <fstream>
#include <functional>
#include <map>
#include <regex>
#include <set>
#include <string>
#include <vector>

using namespace llvm;

static std::string dem(StringRef n) { return demangle(n.str()); }

static std::string tystr(Type* t) {
	std::string s; raw_string_ostream os(s); t->print(os, false, true); return os.str();
}

struct Dumper {
	Module& M; const DataLayout& DL; json::OStream& J;
	std::map<const DILocation*, int> locIds; std::vector<const DILocation*> locs;
	std::map<const DIType*, int> tyIds; std::vector<const DIType*> tys;
	std::map<std::string, std::vector<std::pair<uint64_t, std::string>>> dummy;
	Dumper(Module& m, json::OStream& j) : M(m), DL(m.getDataLayout()), J(j) {}

	int locId(const DILocation* l) {
		if (!l) return -1;
		auto it = locIds.find(l);
		if (it != locIds.end()) return it->second;
		if (l->getInlinedAt()) locId(l->getInlinedAt());
		int id = (int)locs.size(); locIds[l] = id; locs.push_back(l); return id;
	}
	int tyId(const DIType* t) {
		if (!t) return -1;
		auto it = tyIds.find(t);
		if (it != tyIds.end()) return it->second;
		int id = (int)tys.size(); tyIds[t] = id; tys.push_back(t); return id;
	}

	DenseMap<const Value*, int> ids;
	DenseMap<const BasicBlock*, int> bids;

	void constant(const Constant* c, int depth = 0) {
		if (auto* ci = dyn_cast<ConstantInt>(c)) {
			if (ci->getBitWidth() <= 64) J.array([&] { J.value("c"); J.value(ci->getSExtValue()); J.value((int)ci->getBitWidth()); });
			else J.array([&] { J.value("c"); J.value(0); J.value((int)ci->getBitWidth()); });
		} else if (auto* cf = dyn_cast<ConstantFP>(c)) {
			double d = cf->getType()->isX86_FP80Ty() ? 0.0 : cf->getType()->isFloatTy() ? (double)cf->getValueAPF().convertToFloat() : cf->getValueAPF().convertToDouble();
			if (std::isfinite(d)) J.array([&] { J.value("f"); J.value(d); });
			else J.array([&] { J.value("f"); J.value(std::isnan(d) ? "nan" : d > 0 ? "inf" : "-inf"); });
		} else if (isa<ConstantPointerNull>(c)) J.array([&] { J.value("null"); });
		else if (isa<PoisonValue>(c)) J.array([&] { J.value("poison"); });
		else if (isa<UndefValue>(c)) J.array([&] { J.value("undef"); });
		else if (isa<ConstantAggregateZero>(c)) J.array([&] { J.value("zero"); });
		else if (auto* gv = dyn_cast<GlobalValue>(c)) J.array([&] { J.value("g"); J.value(gv->getName()); });
		else if (auto* ce = dyn_cast<ConstantExpr>(c)) {
			if (ce->getOpcode() == Instruction::GetElementPtr) {
				APInt off(64, 0);
				if (cast<GEPOperator>(ce)->accumulateConstantOffset(DL, off)) {
					J.array([&] { J.value("cgep"); constant(cast<Constant>(ce->getOperand(0)), depth + 1); J.value((int64_t)off.getSExtValue()); });
					return;
				}
			}
			J.array([&] { J.value("ce"); J.value(ce->getOpcodeName()); if (depth < 4) for (auto& o : ce->operands()) constant(cast<Constant>(o), depth + 1); });
		} else if (auto* ca = dyn_cast<ConstantDataSequential>(c)) {
			J.array([&] {
				J.value("data");
				if (ca->isString(8)) { std::string s = ca->getAsString().str(); J.array([&] { for (unsigned char ch : s) J.value((int)ch); }); }
				else J.array([&] { for (unsigned i = 0; i < ca->getNumElements() && i < 512; ++i) { if (ca->getElementType()->isIntegerTy()) J.value((int64_t)ca->getElementAsInteger(i)); else if (ca->getElementType()->isDoubleTy()) J.value(ca->getElementAsDouble(i)); else if (ca->getElementType()->isFloatTy()) J.value((double)ca->getElementAsFloat(i)); else J.value(0); } });
			});
		} else if (auto* agg = dyn_cast<ConstantAggregate>(c)) {
			J.array([&] { J.value("agg"); if (depth < 6) for (auto& o : agg->operands()) constant(cast<Constant>(o), depth + 1); });
		} else J.array([&] { J.value("other"); });
	}
	void val(const Value* v) {
		auto it = ids.find(v);
		if (it != ids.end()) { J.value(it->second); return; }
		if (auto* c = dyn_cast<Constant>(v)) { constant(c); return; }
		if (auto* m = dyn_cast<MetadataAsValue>(v)) { (void)m; J.array([&] { J.value("md"); }); return; }
		J.array([&] { J.value("other"); });
	}

	// virtual-call candidates: load(gep(vtable,k)) where vtable is type-tested
	std::map<std::string, std::vector<std::pair<GlobalVariable*, uint64_t>>> vtables;
	void collectVtables() {
		for (auto& g : M.globals()) {
			SmallVector<MDNode*, 4> mds; g.getMetadata(LLVMContext::MD_type, mds);
			for (auto* md : mds) {
				auto off = mdconst::extract<ConstantInt>(md->getOperand(0))->getZExtValue();
				if (auto* s = dyn_cast<MDString>(md->getOperand(1))) vtables[s->getString().str()].push_back({ &g, off });
			}
		}
	}
	const Constant* entryAt(const Constant* c, uint64_t off) {
		Type* t = c->getType();
		if (off == 0 && t->isPointerTy()) return c;
		if (auto* st = dyn_cast<StructType>(t)) {
			auto* sl = DL.getStructLayout(st);
			if (off >= sl->getSizeInBytes()) return nullptr;
			unsigned i = sl->getElementContainingOffset(off);
			auto* e = c->getAggregateElement(i);
			return e ? entryAt(e, off - sl->getElementOffset(i)) : nullptr;
		}
		if (auto* at = dyn_cast<ArrayType>(t)) {
			uint64_t sz = DL.getTypeAllocSize(at->getElementType());
			if (off / sz >= at->getNumElements()) return nullptr;
			auto* e = c->getAggregateElement((unsigned)(off / sz));
			return e ? entryAt(e, off % sz) : nullptr;
		}
		return nullptr;
	}
	bool virtTargets(const CallBase& cb, std::vector<std::string>& out, std::string& type, uint64_t& slot) {
		auto* ld = dyn_cast<LoadInst>(cb.getCalledOperand()->stripPointerCasts());
		if (!ld) return false;
		const Value* p = ld->getPointerOperand(); uint64_t off = 0;
		APInt a(64, 0);
		const Value* base = p->stripAndAccumulateConstantOffsets(DL, a, true);
		off = a.getZExtValue();
		auto* vt = dyn_cast<LoadInst>(base);
		if (!vt) return false;
		const Value* obj = vt->getPointerOperand();
		// find the type test on this vtable, or on another load of the same object's vtable
		auto search = [&](const Value* v) -> bool {
			for (auto* u : v->users())
				if (auto* ii = dyn_cast<IntrinsicInst>(u))
					if (ii->getIntrinsicID() == Intrinsic::type_test || ii->getIntrinsicID() == Intrinsic::public_type_test) {
						auto* md = cast<MetadataAsValue>(ii->getArgOperand(1))->getMetadata();
						if (auto* s = dyn_cast<MDString>(md)) { type = s->getString().str(); return true; }
					}
			return false;
		};
		if (!search(vt)) {
			bool ok = false;
			for (auto* u : obj->users()) if (auto* l2 = dyn_cast<LoadInst>(u)) if (search(l2)) { ok = true; break; }
			if (!ok) return false;
		}
		slot = off / 8;
		std::set<std::string> s;
		for (auto& [g, ap] : vtables[type]) {
			if (!g->hasInitializer()) continue;
			if (auto* e = entryAt(g->getInitializer(), ap + off))
				if (auto* f = dyn_cast<Function>(e->stripPointerCasts())) s.insert(f->getName().str());
		}
		out.assign(s.begin(), s.end());
		return true;
	}

	void inst(const Instruction& I, const DenseMap<const Value*, std::vector<const DILocalVariable*>>& dbg) {
		J.objectBegin();
		J.attribute("i", ids.lookup(&I));
		std::string op = I.getOpcodeName();
		J.attribute("o", op);
		if (!I.getType()->isVoidTy()) J.attribute("t", tystr(I.getType()));
		if (I.getDebugLoc()) J.attribute("l", locId(I.getDebugLoc().get()));
		if (auto* cb = dyn_cast<CallBase>(&I)) {
			if (auto* f = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())) J.attribute("f", f->getName());
			else if (cb->isInlineAsm()) J.attribute("asm", true);
			else {
				J.attributeBegin("fp"); val(cb->getCalledOperand()); J.attributeEnd();
				std::vector<std::string> t; std::string ty; uint64_t slot = 0;
				if (virtTargets(*cb, t, ty, slot)) {
					J.attribute("vt", ty); J.attribute("slot", (int64_t)slot);
					J.attributeArray("vf", [&] { for (auto& s : t) J.value(s); });
				}
			}
			J.attributeArray("a", [&] { for (auto& a : cb->args()) val(a.get()); });
			if (cb->doesNotThrow()) J.attribute("nt", 1);
			if (cb->doesNotReturn()) J.attribute("nr", 1);
			bool sret = cb->arg_size() > 0 && cb->paramHasAttr(0, Attribute::StructRet);
			if (sret) J.attribute("sret", 1);
			if (auto* inv = dyn_cast<InvokeInst>(&I))
				J.attributeArray("s", [&] { J.value(bids.lookup(inv->getNormalDest())); J.value(bids.lookup(inv->getUnwindDest())); });
		} else if (auto* br = dyn_cast<BranchInst>(&I)) {
			if (br->isConditional()) J.attributeArray("a", [&] { val(br->getCondition()); });
			J.attributeArray("s", [&] { for (unsigned k = 0; k < br->getNumSuccessors(); ++k) J.value(bids.lookup(br->getSuccessor(k))); });
		} else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
			J.attributeArray("a", [&] { val(sw->getCondition()); });
			J.attributeArray("s", [&] { J.value(bids.lookup(sw->getDefaultDest())); for (auto& c : sw->cases()) J.value(bids.lookup(c.getCaseSuccessor())); });
			J.attributeArray("cases", [&] { for (auto& c : sw->cases()) J.value(c.getCaseValue()->getSExtValue()); });
		} else if (auto* phi = dyn_cast<PHINode>(&I)) {
			J.attributeArray("a", [&] { for (auto& v : phi->incoming_values()) val(v.get()); });
			J.attributeArray("pb", [&] { for (auto* b : phi->blocks()) J.value(bids.lookup(b)); });
		} else if (auto* gep = dyn_cast<GetElementPtrInst>(&I)) {
			J.attributeArray("a", [&] { for (auto& o : gep->operands()) val(o.get()); });
			APInt off(64, 0);
			if (gep->accumulateConstantOffset(DL, off)) J.attribute("off", off.getSExtValue());
			else {
				// constant part plus variable (index, scale) parts
				MapVector<Value*, APInt> var; APInt c(64, 0);
				if (gep->collectOffset(DL, 64, var, c)) {
					J.attribute("coff", c.getSExtValue());
					J.attributeArray("var", [&] { for (auto& [v, s] : var) J.array([&] { val(v); J.value(s.getSExtValue()); }); });
				}
			}
			J.attribute("st", tystr(gep->getSourceElementType()));
		} else if (auto* cmp = dyn_cast<CmpInst>(&I)) {
			J.attribute("p", CmpInst::getPredicateName(cmp->getPredicate()));
			J.attributeArray("a", [&] { for (auto& o : I.operands()) val(o.get()); });
		} else if (auto* rmw = dyn_cast<AtomicRMWInst>(&I)) {
			J.attribute("p", AtomicRMWInst::getOperationName(rmw->getOperation()));
			J.attributeArray("a", [&] { for (auto& o : I.operands()) val(o.get()); });
		} else if (auto* al = dyn_cast<AllocaInst>(&I)) {
			J.attribute("at", tystr(al->getAllocatedType()));
			if (al->getAllocatedType()->isSized()) J.attribute("sz", (int64_t)DL.getTypeAllocSize(al->getAllocatedType()).getFixedValue());
			J.attributeArray("a", [&] { val(al->getArraySize()); });
		} else if (auto* ev = dyn_cast<ExtractValueInst>(&I)) {
			J.attributeArray("a", [&] { val(ev->getAggregateOperand()); });
			J.attributeArray("idx", [&] { for (auto k : ev->indices()) J.value((int)k); });
		} else if (auto* iv = dyn_cast<InsertValueInst>(&I)) {
			J.attributeArray("a", [&] { val(iv->getAggregateOperand()); val(iv->getInsertedValueOperand()); });
			J.attributeArray("idx", [&] { for (auto k : iv->indices()) J.value((int)k); });
		} else if (auto* sv = dyn_cast<ShuffleVectorInst>(&I)) {
			J.attributeArray("a", [&] { for (auto& o : I.operands()) val(o.get()); });
			J.attributeArray("idx", [&] { for (int k : sv->getShuffleMask()) J.value(k); });
		} else if (auto* lp = dyn_cast<LandingPadInst>(&I)) {
			J.attribute("cleanup", lp->isCleanup());
			J.attributeArray("cl", [&] { for (unsigned k = 0; k < lp->getNumClauses(); ++k) { if (lp->isCatch(k)) constant(lp->getClause(k)); else J.array([&] { J.value("filter"); }); } });
		} else {
			J.attributeArray("a", [&] { for (auto& o : I.operands()) if (!isa<BasicBlock>(o.get())) val(o.get()); });
			if (I.isTerminator() && I.getNumSuccessors()) J.attributeArray("s", [&] { for (unsigned k = 0; k < I.getNumSuccessors(); ++k) J.value(bids.lookup(I.getSuccessor(k))); });
			if (I.isAtomic()) J.attribute("atomic", 1);
			if (auto* li = dyn_cast<LoadInst>(&I)) { if (li->isVolatile()) J.attribute("vol", 1); }
			if (auto* si = dyn_cast<StoreInst>(&I)) { if (si->isVolatile()) J.attribute("vol", 1); J.attribute("vt", tystr(si->getValueOperand()->getType())); }
			if (isa<CastInst>(I)) J.attribute("ft", tystr(I.getOperand(0)->getType()));
		}
		auto it = dbg.find(&I);
		if (it != dbg.end()) dbgvars(it->second);
		J.objectEnd();
	}
	void dbgvars(const std::vector<const DILocalVariable*>& vs) {
		J.attributeArray("dv", [&] { for (auto* v : vs) J.array([&] { J.value(v->getName()); J.value(tyId(v->getType())); J.value(v->getArg()); }); });
	}

	void function(const Function& F) {
		ids.clear(); bids.clear();
		int n = 0;
		for (auto& a : F.args()) ids[&a] = n++;
		int b = 0;
		for (auto& bb : F) { bids[&bb] = b++; for (auto& i : bb) if (!isa<DbgInfoIntrinsic>(i)) ids[&i] = n++; }
		DenseMap<const Value*, std::vector<const DILocalVariable*>> dbg;
		DenseMap<const Value*, const DIType*> indirect;
		for (auto& bb : F) for (auto& i : bb) {
			if (auto* d = dyn_cast<DbgVariableIntrinsic>(&i)) {
				if (d->getNumVariableLocationOps() != 1) continue;
				if (isa<DbgValueInst>(d) && d->getExpression()->getNumElements() == 1 && d->getExpression()->getElement(0) == dwarf::DW_OP_deref)
					if (auto* v = d->getVariableLocationOp(0)) indirect[v] = d->getVariable()->getType();
				if (isa<DbgValueInst>(d) && d->getExpression()->getNumElements() != 0) continue;
				if (auto* v = d->getVariableLocationOp(0)) {
					auto& l = dbg[v];
					if (l.size() < 8) l.push_back(d->getVariable());
				}
			}
		}
		J.objectBegin();
		J.attribute("name", F.getName());
		J.attribute("dem", dem(F.getName()));
		if (auto* sp = F.getSubprogram()) {
			J.attribute("file", sp->getFile() ? (sp->getFilename().startswith("/") ? sp->getFilename().str() : (sp->getDirectory() + "/" + sp->getFilename()).str()) : "");
			J.attribute("line", sp->getLine());
			J.attribute("dn", sp->getName());
			if (auto* sc = sp->getScope()) if (auto* ct = dyn_cast<DIType>(sc)) J.attribute("cls", tyId(ct));
			if (sp->isArtificial()) J.attribute("artificial", 1);
			if (auto* ft = sp->getType()) if (ft->getTypeArray().size() && ft->getTypeArray()[0]) J.attribute("rt", tyId(ft->getTypeArray()[0]));
		}
		J.attribute("link", (int)F.getLinkage());
		if (F.hasLocalLinkage()) J.attribute("local", 1);
		J.attribute("ret", tystr(F.getReturnType())); if (F.hasRetAttribute(Attribute::Dereferenceable) || F.hasRetAttribute(Attribute::NonNull)) J.attribute("rref", 1);
		if (F.doesNotThrow()) J.attribute("nt", 1);
		if (F.doesNotReturn()) J.attribute("nr", 1);
		if (F.isVarArg()) J.attribute("va", 1);
		J.attributeArray("args", [&] {
			for (auto& a : F.args()) J.object([&] {
				J.attribute("i", ids.lookup(&a)); J.attribute("t", tystr(a.getType()));
				if (a.hasStructRetAttr()) J.attribute("sret", 1);
				if (a.hasByValAttr()) J.attribute("byval", 1);
				if (a.hasNonNullAttr(false)) J.attribute("nn", 1);
				if (indirect.count(&a)) J.attribute("ind", tyId(indirect[&a]));
				auto it = dbg.find(&a); if (it != dbg.end()) dbgvars(it->second);
			});
		});
		J.attributeArray("blocks", [&] {
			for (auto& bb : F) J.array([&] { for (auto& i : bb) if (!isa<DbgInfoIntrinsic>(i)) inst(i, dbg); });
		});
		J.objectEnd();
	}

	void typeTable() {
		J.attributeArray("types", [&] {
			for (size_t i = 0; i < tys.size(); ++i) {
				auto* t = tys[i];
				J.object([&] {
					J.attribute("tag", dwarf::TagString(t->getTag()));
					J.attribute("name", t->getName());
					J.attribute("size", (int64_t)t->getSizeInBits() / 8);
					if (auto* d = dyn_cast<DIDerivedType>(t)) { if (d->getBaseType()) J.attribute("base", tyId(d->getBaseType())); }
					if (auto* c = dyn_cast<DICompositeType>(t)) {
						J.attribute("id", c->getIdentifier());
						if (c->getBaseType()) J.attribute("base", tyId(c->getBaseType()));
						if (c->getScope()) J.attribute("scope", scopeName(c->getScope()));
						J.attributeArray("members", [&] {
							for (auto* e : c->getElements()) {
								if (auto* m = dyn_cast_or_null<DIDerivedType>(e)) {
									if (m->getTag() == dwarf::DW_TAG_member && !m->isStaticMember()) J.array([&] { J.value(m->getName()); J.value((int64_t)m->getOffsetInBits() / 8); J.value(tyId(m->getBaseType())); J.value("m"); });
									else if (m->getTag() == dwarf::DW_TAG_inheritance) J.array([&] { J.value(""); J.value((int64_t)m->getOffsetInBits() / 8); J.value(tyId(m->getBaseType())); J.value("b"); });
								} else if (auto* en = dyn_cast_or_null<DIEnumerator>(e)) J.array([&] { J.value(en->getName()); J.value(en->getValue().getSExtValue()); J.value(-1); J.value("e"); });
							}
						});
					}
				});
			}
		});
	}
	std::string scopeName(const DIScope* s) {
		std::string r;
		while (s) {
			if (isa<DIFile>(s) || isa<DICompileUnit>(s)) break;
			std::string n = s->getName().str();
			if (!n.empty()) r = r.empty() ? n : n + "::" + r;
			if (auto* ns = dyn_cast<DINamespace>(s)) s = ns->getScope();
			else if (auto* t = dyn_cast<DIType>(s)) s = t->getScope();
			else if (auto* sp = dyn_cast<DISubprogram>(s)) s = sp->getScope();
			else break;
		}
		return r;
	}

	void run(const std::regex* only) {
		collectVtables();
		J.objectBegin();
		J.attributeArray("funcs", [&] {
			for (auto& F : M) {
				if (F.isDeclaration()) continue;
				if (only && !std::regex_search(dem(F.getName()), *only)) continue;
				function(F);
			}
		});
		J.attributeArray("decls", [&] {
			for (auto& F : M) if (F.isDeclaration() && !F.isIntrinsic()) J.object([&] {
				J.attribute("name", F.getName()); J.attribute("dem", dem(F.getName()));
				if (F.doesNotThrow()) J.attribute("nt", 1);
				if (F.doesNotReturn()) J.attribute("nr", 1);
				if (F.isVarArg()) J.attribute("va", 1);
			});
		});
		J.attributeArray("globals", [&] {
			for (auto& g : M.globals()) J.object([&] {
				J.attribute("name", g.getName()); J.attribute("dem", dem(g.getName()));
				J.attribute("t", tystr(g.getValueType()));
				J.attribute("const", g.isConstant()); J.attribute("tls", g.isThreadLocal()); J.attribute("local", g.hasLocalLinkage());
				J.attribute("decl", g.isDeclaration());
				SmallVector<DIGlobalVariableExpression*, 1> gs; g.getDebugInfo(gs);
				if (!gs.empty()) {
					auto* v = gs[0]->getVariable();
					J.attribute("dn", v->getName()); J.attribute("line", v->getLine()); J.attribute("dt", tyId(v->getType()));
					if (v->getFile()) J.attribute("file", v->getFilename().startswith("/") ? v->getFilename().str() : (v->getDirectory() + "/" + v->getFilename()).str());
				}
				if (g.hasInitializer() && DL.getTypeAllocSize(g.getValueType()) <= 4096) { J.attributeBegin("init"); constant(g.getInitializer()); J.attributeEnd(); }
			});
		});
		J.attributeArray("aliases", [&] {
			for (auto& a : M.aliases()) J.array([&] { J.value(a.getName()); auto* o = a.getAliaseeObject(); J.value(o ? o->getName() : ""); });
		});
		J.attributeArray("ctors", [&] {
			if (auto* g = M.getGlobalVariable("llvm.global_ctors")) if (g->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(g->getInitializer()))
				for (auto& o : ca->operands()) if (auto* f = dyn_cast<Function>(cast<Constant>(o)->getAggregateElement(1u)->stripPointerCasts())) J.value(f->getName());
		});
		J.attributeObject("structs", [&] {
			for (auto* st : M.getIdentifiedStructTypes()) {
				if (st->isOpaque() || !st->isSized() || !st->hasName()) continue;
				auto* sl = DL.getStructLayout(st);
				J.attributeArray(tystr(st), [&] {
					J.value((int64_t)sl->getSizeInBytes());
					for (unsigned k = 0; k < st->getNumElements(); ++k) J.array([&] { J.value((int64_t)(uint64_t)sl->getElementOffset(k)); J.value(tystr(st->getElementType(k))); });
				});
			}
		});
		typeTable();
		J.attributeArray("locs", [&] {
			for (auto* l : locs) J.array([&] {
				auto* sp = l->getScope()->getSubprogram();
				auto* f = l->getFile();
				J.value(f ? (f->getFilename().startswith("/") ? f->getFilename().str() : (f->getDirectory() + "/" + f->getFilename()).str()) : "");
				J.value(l->getLine());
				J.value(sp ? (sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str()) : "");
				J.value(l->getInlinedAt() ? locId(l->getInlinedAt()) : -1);
			});
		});
		J.objectEnd();
	}
};

/// gives every scalar local (and scalar part of a local aggregate) an explicit initial value, the result of a call to xo.undef.*, so that
/// later passes cannot choose a convenient value for what the source leaves unassigned
static void markUnassigned(Module& M) {
	auto& DL = M.getDataLayout(); (void)DL;
	for (auto& F : M) {
		if (F.isDeclaration()) continue;
		std::vector<AllocaInst*> as;
		for (auto& I : F.getEntryBlock()) if (auto* a = dyn_cast<AllocaInst>(&I)) if (!a->isArrayAllocation()) as.push_back(a);
		for (auto* a : as) {
			IRBuilder<> B(a->getNextNode());
			std::vector<std::pair<Type*, std::vector<unsigned>>> parts;
			std::function<bool(Type*, std::vector<unsigned>)> walk = [&](Type* t, std::vector<unsigned> ix) {
				if (t->isIntegerTy() || t->isFloatingPointTy() || t->isPointerTy()) { parts.emplace_back(t, ix); return parts.size() <= 16; }
				if (auto* st = dyn_cast<StructType>(t)) {
					if (st->hasName() && (st->getName().contains("std::") || st->getName().contains("__gnu_cxx") || st->getName().startswith("union.")|| st->getName().startswith("class.anon") || st->isOpaque())) return true;
					for (unsigned k = 0; k < st->getNumElements(); ++k) { auto j = ix; j.push_back(k); if (!walk(st->getElementType(k), j)) return false; }
				} else if (auto* at = dyn_cast<ArrayType>(t)) {
					if (at->getNumElements() > 4) return true;
					for (unsigned k = 0; k < at->getNumElements(); ++k) { auto j = ix; j.push_back(k); if (!walk(at->getElementType(), j)) return false; }
				}
				return true;
			};
			if (!walk(a->getAllocatedType(), {0u})) continue;
			for (auto& [t, ix] : parts) {
				std::string n; raw_string_ostream os(n); os << "xo.undef."; t->print(os, false, true);
				auto fn = M.getOrInsertFunction(os.str(), FunctionType::get(t, false));
				if (auto* f = dyn_cast<Function>(fn.getCallee())) { f->setDoesNotThrow(); f->setWillReturn(); f->setOnlyAccessesInaccessibleMemory(); }
				auto* v = B.CreateCall(fn);
				Value* ptr = a;
				if (ix.size() > 1) { std::vector<Value*> gi; for (auto k : ix) gi.push_back(B.getInt32(k)); ptr = B.CreateInBoundsGEP(a->getAllocatedType(), a, gi); }
				B.CreateStore(v, ptr);
			}
		}
	}
}

int main(int argc, char** argv) {
	std::string out, passes; std::vector<std::string> in, inl, keep; std::string only, listFile;
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		auto next = [&] { if (i + 1 >= argc) { errs() << "missing argument for " << a << "\n"; exit(2); } return std::string(argv[++i]); };
		if (a == "-o") out = next(); else if (a == "--passes") passes = next(); else if (a == "--inline") inl.push_back(next());
		else if (a == "--keep") keep.push_back(next()); else if (a == "--inline-list") listFile = next(); else if (a == "--only") only = next(); else in.push_back(a);
	}
	LLVMContext C; std::unique_ptr<Module> M;
	for (auto& f : in) {
		SMDiagnostic e; auto m = parseIRFile(f, e, C);
		if (!m) { e.print("irdump", errs()); return 2; }
		if (!M) { M = std::move(m); continue; }
		if (Linker::linkModules(*M, std::move(m))) { errs() << "link failed: " << f << "\n"; return 2; }
	}
	if (!M) return 2;
	std::set<std::string> list;
	if (!listFile.empty()) { std::ifstream is(listFile); std::string l; while (std::getline(is, l)) list.insert(l); }
	if (!inl.empty() || !list.empty()) {
		std::vector<std::regex> ri, rk; for (auto& s : inl) ri.emplace_back(s); for (auto& s : keep) rk.emplace_back(s);
		for (auto& F : *M) {
			F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::OptimizeNone);
			if (F.isDeclaration()) continue;
			std::string d = dem(F.getName()); bool yes = list.count(F.getName().str()) > 0;
			if (!yes) for (auto& r : ri) if (std::regex_search(d, r)) { yes = true; break; }
			if (yes) for (auto& r : rk) if (std::regex_search(d, r)) { yes = false; break; }
			F.removeFnAttr(Attribute::AlwaysInline);
			if (yes) F.addFnAttr(Attribute::AlwaysInline); else F.addFnAttr(Attribute::NoInline);
		}
	}
	if (passes.rfind("mark-unassigned", 0) == 0) { markUnassigned(*M); passes = passes.size() > 16 ? passes.substr(16) : ""; }
	if (!passes.empty()) {
		LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
		PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
		PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
		ModulePassManager MPM;
		if (auto e = PB.parsePassPipeline(MPM, passes)) { errs() << toString(std::move(e)) << "\n"; return 2; }
		MPM.run(*M, MAM);
	}
	std::error_code EC; raw_fd_ostream os(out.empty() ? "-" : out, EC);
	if (EC) { errs() << EC.message() << "\n"; return 2; }
	json::OStream J(os);
	Dumper d(*M, J);
	std::regex ro; if (!only.empty()) ro = std::regex(only);
	d.run(only.empty() ? nullptr : &ro);
	os << "\n";
	return 0;
}
