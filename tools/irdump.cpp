// Dumps LLVM bitcode/IR of one translation unit as JSON for the Python analyses.
// It runs mem2reg/SROA/loop-simplify (structure preserving) before dumping; nothing is executed.
#include "llvm/ADT/MapVector.h"
#include "llvm/Analysis/CGSCCPassManager.h"
#include "llvm/Analysis/LoopAnalysisManager.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
using namespace llvm;

static json::OStream * J;
static const DataLayout * DL;
static std::map<const Type *, int> typeIds;
static std::vector<const Type *> typeList;
static std::map<const Value *, int> ids;
static std::map<const BasicBlock *, int> bids;

static int tid( const Type * t )
{
    auto it = typeIds.find( t );
    if ( it != typeIds.end() )
        return it->second;
    if ( auto * s = dyn_cast<StructType>( t ) ) {
        if ( !s->isOpaque() )
            for ( auto * e : s->elements() )
                tid( e );
    }
    else if ( auto * a = dyn_cast<ArrayType>( t ) )
        tid( a->getElementType() );
    else if ( auto * v = dyn_cast<FixedVectorType>( t ) )
        tid( v->getElementType() );
    int id = (int)typeList.size();
    typeIds[t] = id;
    typeList.push_back( t );
    return id;
}

static void dumpType( const Type * t )
{
    J->object( [&] {
        if ( t->isSized() )
            J->attribute( "size", (int64_t)DL->getTypeAllocSize( const_cast<Type *>( t ) ).getKnownMinValue() );
        if ( auto * i = dyn_cast<IntegerType>( t ) ) {
            J->attribute( "k", "int" );
            J->attribute( "w", (int64_t)i->getBitWidth() );
        }
        else if ( t->isPointerTy() )
        {
            J->attribute( "k", "ptr" );
            J->attribute( "as", (int64_t)t->getPointerAddressSpace() );
        }
        else if ( t->isFloatTy() )
            J->attribute( "k", "float" );
        else if ( t->isDoubleTy() )
            J->attribute( "k", "double" );
        else if ( t->isVoidTy() )
            J->attribute( "k", "void" );
        else if ( auto * s = dyn_cast<StructType>( t ) ) {
            J->attribute( "k", "struct" );
            J->attribute( "name", s->hasName() ? s->getName() : "" );
            if ( !s->isOpaque() && s->isSized() ) {
                auto * l = DL->getStructLayout( const_cast<StructType *>( s ) );
                J->attributeArray( "el", [&] {
                    for ( unsigned i = 0; i < s->getNumElements(); ++i )
                        J->array( [&] {
                            J->value( tid( s->getElementType( i ) ) );
                            J->value( (int64_t)l->getElementOffset( i ) );
                        } );
                } );
            }
        }
        else if ( auto * a = dyn_cast<ArrayType>( t ) ) {
            J->attribute( "k", "array" );
            J->attribute( "n", (int64_t)a->getNumElements() );
            J->attribute( "e", tid( a->getElementType() ) );
        }
        else if ( auto * v = dyn_cast<FixedVectorType>( t ) ) {
            J->attribute( "k", "vec" );
            J->attribute( "n", (int64_t)v->getNumElements() );
            J->attribute( "e", tid( v->getElementType() ) );
        }
        else
            J->attribute( "k", "other" );
    } );
}

static void dumpValue( const Value * v, int depth = 0 );

static void gepParts( const GEPOperator * g )
{
    unsigned bw = DL->getIndexSizeInBits( g->getPointerAddressSpace() );
    MapVector<Value *, APInt> vars;
    APInt c( bw, 0 );
    bool ok = const_cast<GEPOperator *>( g )->collectOffset( *DL, bw, vars, c );
    J->attribute( "gepok", ok );
    J->attribute( "off", c.getSExtValue() );
    J->attributeArray( "vars", [&] {
        for ( auto & p : vars )
            J->array( [&] {
                dumpValue( p.first );
                J->value( p.second.getSExtValue() );
            } );
    } );
    J->attribute( "srcty", tid( g->getSourceElementType() ) );
    J->attributeArray( "idx", [&] {
        for ( auto & i : g->indices() )
            dumpValue( i.get() );
    } );
}

static void dumpValue( const Value * v, int depth )
{
    J->array( [&] {
        if ( isa<Instruction>( v ) ) {
            J->value( "v" );
            J->value( ids[v] );
        }
        else if ( isa<Argument>( v ) ) {
            J->value( "a" );
            J->value( (int64_t)cast<Argument>( v )->getArgNo() );
        }
        else if ( auto * b = dyn_cast<BasicBlock>( v ) ) {
            J->value( "b" );
            J->value( bids[b] );
        }
        else if ( auto * i = dyn_cast<ConstantInt>( v ) ) {
            J->value( "i" );
            J->value( (int64_t)i->getBitWidth() );
            SmallString<40> s;
            i->getValue().toStringUnsigned( s );
            J->value( s.str() );
        }
        else if ( auto * f = dyn_cast<ConstantFP>( v ) ) {
            J->value( "f" );
            SmallString<40> s;
            f->getValueAPF().toString( s );
            J->value( s.str() );
            J->value( tid( v->getType() ) );
        }
        else if ( isa<ConstantPointerNull>( v ) )
            J->value( "n" );
        else if ( isa<UndefValue>( v ) ) {
            J->value( isa<PoisonValue>( v ) ? "poison" : "u" );
            J->value( tid( v->getType() ) );
        }
        else if ( auto * g = dyn_cast<GlobalValue>( v ) ) {
            J->value( "g" );
            J->value( g->getName() );
        }
        else if ( isa<ConstantAggregateZero>( v ) ) {
            J->value( "z" );
            J->value( tid( v->getType() ) );
        }
        else if ( auto * cd = dyn_cast<ConstantDataSequential>( v ) ) {
            J->value( "agg" );
            J->value( tid( v->getType() ) );
            J->array( [&] {
                for ( unsigned i = 0; i < cd->getNumElements(); ++i )
                    dumpValue( cd->getElementAsConstant( i ), depth + 1 );
            } );
        }
        else if ( isa<ConstantAggregate>( v ) ) {
            J->value( "agg" );
            J->value( tid( v->getType() ) );
            J->array( [&] {
                for ( auto & o : cast<ConstantAggregate>( v )->operands() )
                    dumpValue( o.get(), depth + 1 );
            } );
        }
        else if ( auto * ce = dyn_cast<ConstantExpr>( v ) ) {
            J->value( "ce" );
            J->object( [&] {
                J->attribute( "op", ce->getOpcodeName() );
                J->attribute( "ty", tid( ce->getType() ) );
                J->attributeArray( "ops", [&] {
                    for ( auto & o : ce->operands() )
                        dumpValue( o.get(), depth + 1 );
                } );
                if ( auto * ge = dyn_cast<GEPOperator>( v ) )
                    gepParts( ge );
            } );
        }
        else if ( isa<MetadataAsValue>( v ) ) {
            J->value( "md" );
        }
        else {
            J->value( "x" );
            J->value( (int64_t)v->getValueID() );
        }
    } );
}

static std::string diTypeName( const DIType * t, int depth = 0 )
{
    if ( !t )
        return "void";
    if ( depth > 12 )
        return "...";
    if ( auto * d = dyn_cast<DIDerivedType>( t ) ) {
        std::string b = diTypeName( d->getBaseType(), depth + 1 );
        switch ( d->getTag() ) {
        case dwarf::DW_TAG_pointer_type:
            return b + "*";
        case dwarf::DW_TAG_reference_type:
            return b + "&";
        case dwarf::DW_TAG_rvalue_reference_type:
            return b + "&&";
        case dwarf::DW_TAG_const_type:
            return "const " + b;
        case dwarf::DW_TAG_volatile_type:
            return "volatile " + b;
        case dwarf::DW_TAG_typedef:
            return b;
        default:
            return b;
        }
    }
    std::string s;
    if ( auto * sc = t->getScope() ) {
        if ( auto * st = dyn_cast<DIType>( sc ) )
            s = diTypeName( st, depth + 1 ) + "::";
        else if ( auto * ns = dyn_cast<DINamespace>( sc ) ) {
            std::string q;
            for ( const DIScope * x = ns; x; x = x->getScope() )
                if ( auto * n = dyn_cast<DINamespace>( x ) )
                    q = ( n->getName().empty() ? std::string( "(anonymous namespace)" ) : n->getName().str() ) + "::" + q;
            s = q;
        }
    }
    return s + ( t->getName().empty() ? std::string( "?" ) : t->getName().str() );
}

static void dumpLoc( const Instruction & I )
{
    if ( const DebugLoc & l = I.getDebugLoc() ) {
        J->attribute( "ln", (int64_t)l.getLine() );
        J->attribute( "fl", l->getScope()->getFilename() );
        if ( l->getInlinedAt() ) {
            J->attribute( "inl", true );
            if ( auto * sp = l->getScope()->getSubprogram() )
                J->attribute( "sf", json::fixUTF8( sp->getName() ) );
        }
    }
}

static void dumpInstr( const Instruction & I )
{
    J->object( [&] {
        J->attribute( "id", ids[&I] );
        J->attribute( "op", I.getOpcodeName() );
        J->attribute( "ty", tid( I.getType() ) );
        dumpLoc( I );
        if ( auto * g = dyn_cast<GetElementPtrInst>( &I ) ) {
            J->attributeBegin( "base" );
            dumpValue( g->getPointerOperand() );
            J->attributeEnd();
            gepParts( cast<GEPOperator>( g ) );
            return;
        }
        if ( auto * p = dyn_cast<PHINode>( &I ) ) {
            J->attributeArray( "inc", [&] {
                for ( unsigned i = 0; i < p->getNumIncomingValues(); ++i )
                    J->array( [&] {
                        J->value( bids[p->getIncomingBlock( i )] );
                        dumpValue( p->getIncomingValue( i ) );
                    } );
            } );
            return;
        }
        if ( auto * c = dyn_cast<CallBase>( &I ) ) {
            J->attributeBegin( "callee" );
            dumpValue( c->getCalledOperand() );
            J->attributeEnd();
            J->attributeArray( "args", [&] {
                for ( auto & a : c->args() )
                    dumpValue( a.get() );
            } );
            J->attributeArray( "aty", [&] {
                for ( auto & a : c->args() )
                    J->value( tid( a->getType() ) );
            } );
            if ( auto * a = dyn_cast<InlineAsm>( c->getCalledOperand() ) ) {
                J->attribute( "asm", json::fixUTF8( a->getAsmString() ) );
                J->attribute( "acon", json::fixUTF8( a->getConstraintString() ) );
            }
            if ( c->doesNotThrow() )
                J->attribute( "nounwind", true );
            if ( c->doesNotReturn() )
                J->attribute( "noreturn", true );
            J->attributeArray( "byval", [&] {
                for ( unsigned i = 0; i < c->arg_size(); ++i )
                    if ( c->paramHasAttr( i, Attribute::ByVal ) )
                        J->value( (int64_t)i );
            } );
            if ( auto * inv = dyn_cast<InvokeInst>( &I ) ) {
                J->attribute( "nd", bids[inv->getNormalDest()] );
                J->attribute( "ud", bids[inv->getUnwindDest()] );
            }
            return;
        }
        if ( auto * b = dyn_cast<BranchInst>( &I ) ) {
            if ( b->isConditional() ) {
                J->attributeBegin( "cond" );
                dumpValue( b->getCondition() );
                J->attributeEnd();
            }
            J->attributeArray( "succ", [&] {
                for ( unsigned i = 0; i < b->getNumSuccessors(); ++i )
                    J->value( bids[b->getSuccessor( i )] );
            } );
            return;
        }
        if ( auto * s = dyn_cast<SwitchInst>( &I ) ) {
            J->attributeBegin( "cond" );
            dumpValue( s->getCondition() );
            J->attributeEnd();
            J->attribute( "def", bids[s->getDefaultDest()] );
            J->attributeArray( "cases", [&] {
                for ( auto & c : s->cases() )
                    J->array( [&] {
                        dumpValue( c.getCaseValue() );
                        J->value( bids[c.getCaseSuccessor()] );
                    } );
            } );
            return;
        }
        if ( auto * c = dyn_cast<CmpInst>( &I ) )
            J->attribute( "pred", CmpInst::getPredicateName( c->getPredicate() ) );
        if ( auto * o = dyn_cast<OverflowingBinaryOperator>( &I ) ) {
            if ( o->hasNoSignedWrap() )
                J->attribute( "nsw", true );
            if ( o->hasNoUnsignedWrap() )
                J->attribute( "nuw", true );
        }
        if ( auto * a = dyn_cast<AllocaInst>( &I ) )
            J->attribute( "aty", tid( a->getAllocatedType() ) );
        if ( auto * l = dyn_cast<LoadInst>( &I ) ) {
            J->attribute( "al", (int64_t)l->getAlign().value() );
            if ( l->isAtomic() )
                J->attribute( "atomic", true );
        }
        if ( auto * st = dyn_cast<StoreInst>( &I ) ) {
            J->attribute( "al", (int64_t)st->getAlign().value() );
            J->attribute( "vty", tid( st->getValueOperand()->getType() ) );
            if ( st->isAtomic() )
                J->attribute( "atomic", true );
        }
        if ( auto * sv = dyn_cast<ShuffleVectorInst>( &I ) )
            J->attributeArray( "mask", [&] {
                for ( int m : sv->getShuffleMask() )
                    J->value( (int64_t)m );
            } );
        if ( auto * ev = dyn_cast<ExtractValueInst>( &I ) )
            J->attributeArray( "ix", [&] {
                for ( unsigned i : ev->indices() )
                    J->value( (int64_t)i );
            } );
        if ( auto * iv = dyn_cast<InsertValueInst>( &I ) )
            J->attributeArray( "ix", [&] {
                for ( unsigned i : iv->indices() )
                    J->value( (int64_t)i );
            } );
        if ( auto * lp = dyn_cast<LandingPadInst>( &I ) ) {
            J->attribute( "cleanup", lp->isCleanup() );
            J->attributeArray( "clauses", [&] {
                for ( unsigned i = 0; i < lp->getNumClauses(); ++i ) {
                    dumpValue( lp->getClause( i ) );
                }
            } );
            return;
        }
        if ( auto * rmw = dyn_cast<AtomicRMWInst>( &I ) )
            J->attribute( "rmw", AtomicRMWInst::getOperationName( rmw->getOperation() ) );
        J->attributeArray( "ops", [&] {
            for ( auto & o : I.operands() )
                dumpValue( o.get() );
        } );
        if ( I.getNumOperands() )
            J->attributeArray( "oty", [&] {
                for ( auto & o : I.operands() )
                    J->value( tid( o->getType() ) );
            } );
    } );
}

int main( int argc, char ** argv )
{
    LLVMContext ctx;
    SMDiagnostic err;
    auto M = parseIRFile( argv[1], err, ctx );
    if ( !M ) {
        err.print( argv[0], errs() );
        return 2;
    }
    // optional fourth argument: everything is inlined except functions whose demangled name starts with one of the given texts
    if ( argc > 4 ) {
        std::vector<std::string> keep;
        std::string k = argv[4];
        for ( size_t p = 0; p <= k.size(); ) {
            size_t q = std::min( k.find( '|', p ), k.size() );
            if ( q > p )
                keep.push_back( k.substr( p, q - p ) );
            p = q + 1;
        }
        for ( auto & F : *M ) {
            F.removeFnAttr( Attribute::OptimizeNone );
            F.removeFnAttr( Attribute::NoInline );
            F.removeFnAttr( Attribute::AlwaysInline );
            if ( F.isDeclaration() )
                continue;
            // parameter types do not count
            std::string d = demangle( F.getName() );
            for ( size_t p = 0, lvl = 0; p < d.size(); ++p ) {
                if ( d[p] == '<' && ( p < 8 || d.compare( p - 8, 8, "operator" ) != 0 ) && ( p < 9 || d.compare( p - 9, 9, "operator<" ) != 0 ) )
                    ++lvl;
                else if ( d[p] == '>' && lvl > 0 )
                    --lvl;
                else if ( d[p] == '(' && lvl == 0 && d.compare( p, 21, "(anonymous namespace)" ) != 0 ) {
                    if ( p >= 8 && d.compare( p - 8, 8, "operator" ) == 0 )
                        continue;
                    d.resize( p );
                    break;
                }
            }
            bool kept = false;
            for ( auto & x : keep )
                kept |= d.find( x ) != std::string::npos;
            F.addFnAttr( kept ? Attribute::NoInline : Attribute::AlwaysInline );
        }
        for ( auto & F : *M )
            for ( auto & B : F )
                for ( auto & I : B )
                    if ( auto * c = dyn_cast<CallBase>( &I ) )
                        c->removeFnAttr( Attribute::NoInline );
    }
    std::string pipeline = argc > 3 ? argv[3] : "function(sroa,mem2reg,loop-simplify)";
    {
        PassBuilder PB;
        LoopAnalysisManager LAM;
        FunctionAnalysisManager FAM;
        CGSCCAnalysisManager CAM;
        ModuleAnalysisManager MAM;
        PB.registerModuleAnalyses( MAM );
        PB.registerCGSCCAnalyses( CAM );
        PB.registerFunctionAnalyses( FAM );
        PB.registerLoopAnalyses( LAM );
        PB.crossRegisterProxies( LAM, FAM, CAM, MAM );
        ModulePassManager MPM;
        if ( auto e = PB.parsePassPipeline( MPM, pipeline ) ) {
            errs() << "bad pipeline\n";
            return 2;
        }
        MPM.run( *M, MAM );
    }
    DL = &M->getDataLayout();
    std::error_code ec;
    raw_fd_ostream os( argv[2], ec );
    json::OStream js( os );
    J = &js;
    js.object( [&] {
        js.attribute( "source", M->getSourceFileName() );
        js.attributeArray( "globals", [&] {
            for ( auto & g : M->globals() )
                js.object( [&] {
                    js.attribute( "name", g.getName() );
                    js.attribute( "dem", demangle( g.getName() ) );
                    js.attribute( "ty", tid( g.getValueType() ) );
                    js.attribute( "const", g.isConstant() );
                    js.attribute( "tls", g.isThreadLocal() );
                    SmallVector<DIGlobalVariableExpression *, 1> gs;
                    g.getDebugInfo( gs );
                    if ( !gs.empty() && gs[0]->getVariable() ) {
                        js.attribute( "file", gs[0]->getVariable()->getFilename() );
                        js.attribute( "line", (int64_t)gs[0]->getVariable()->getLine() );
                        js.attribute( "dity", diTypeName( gs[0]->getVariable()->getType() ) );
                    }
                    if ( g.hasInitializer() ) {
                        if ( auto * cd = dyn_cast<ConstantDataSequential>( g.getInitializer() ); cd && cd->isString() )
                            js.attribute( "str", json::fixUTF8( cd->getAsString() ) );
                        else {
                            js.attributeBegin( "init" );
                            dumpValue( g.getInitializer() );
                            js.attributeEnd();
                        }
                    }
                } );
        } );
        js.attributeArray( "aliases", [&] {
            for ( auto & a : M->aliases() )
                js.array( [&] {
                    js.value( a.getName() );
                    if ( auto * o = a.getAliaseeObject() )
                        js.value( o->getName() );
                } );
        } );
        js.attributeArray( "functions", [&] {
            for ( auto & F : *M ) {
                ids.clear();
                bids.clear();
                int n = 0, b = 0;
                for ( auto & B : F ) {
                    bids[&B] = b++;
                    for ( auto & I : B )
                        ids[&I] = n++;
                }
                js.object( [&] {
                    js.attribute( "name", F.getName() );
                    js.attribute( "dem", demangle( F.getName() ) );
                    js.attribute( "ret", tid( F.getReturnType() ) );
                    js.attribute( "decl", F.isDeclaration() );
                    js.attribute( "vararg", F.isVarArg() );
                    js.attribute( "nounwind", F.doesNotThrow() );
                    js.attribute( "noreturn", F.doesNotReturn() );
                    js.attribute( "internal", F.hasLocalLinkage() );
                    js.attribute( "odr", F.hasLinkOnceLinkage() || F.hasWeakLinkage() );
                    if ( F.getMetadata( "kernel_arg_type" ) || F.getCallingConv() == CallingConv::SPIR_KERNEL )
                        js.attribute( "kernel", true );
                    if ( auto * sp = F.getSubprogram() ) {
                        js.attribute( "file", sp->getFilename() );
                        js.attribute( "line", (int64_t)sp->getLine() );
                        js.attribute( "sname", sp->getName() );
                        js.attributeArray( "dity", [&] {
                            if ( auto * st = sp->getType() )
                                for ( auto * t : st->getTypeArray() )
                                    js.value( diTypeName( t ) );
                        } );
                    }
                    std::map<unsigned, std::string> argNames;
                    if ( auto * sp = F.getSubprogram() )
                        for ( auto * rn : sp->getRetainedNodes() )
                            if ( auto * lv = dyn_cast<DILocalVariable>( rn ) )
                                if ( lv->getArg() )
                                    argNames[lv->getArg()] = lv->getName().str();
                    js.attributeArray( "args", [&] {
                        for ( auto & A : F.args() )
                            js.object( [&] {
                                js.attribute( "name", A.getName() );
                                js.attribute( "ty", tid( A.getType() ) );
                                if ( A.hasStructRetAttr() )
                                    js.attribute( "sret", tid( A.getParamStructRetType() ) );
                                if ( A.hasByValAttr() )
                                    js.attribute( "byval", tid( A.getParamByValType() ) );
                            } );
                    } );
                    // local variable names (for replay messages) and their DI types, from dbg.declare
                    js.attributeArray( "locals", [&] {
                        for ( auto & B : F )
                            for ( auto & I : B )
                                if ( auto * d = dyn_cast<DbgVariableIntrinsic>( &I ) ) {
                                    Value * v = d->getNumVariableLocationOps() ? d->getVariableLocationOp( 0 ) : nullptr;
                                    if ( !v || isa<Constant>( v ) )
                                        continue;
                                    js.array( [&] {
                                        dumpValue( v );
                                        js.value( d->getVariable()->getName() );
                                        js.value( diTypeName( d->getVariable()->getType() ) );
                                        js.value( isa<DbgDeclareInst>( d ) );
                                    } );
                                }
                    } );
                    js.attributeArray( "blocks", [&] {
                        for ( auto & B : F )
                            js.array( [&] {
                                for ( auto & I : B )
                                    if ( !isa<DbgInfoIntrinsic>( I ) )
                                        dumpInstr( I );
                            } );
                    } );
                } );
            }
        } );
        DebugInfoFinder df;
        df.processModule( *M );
        js.attributeArray( "records", [&] {
            for ( auto * t : df.types() )
                if ( auto * c = dyn_cast<DICompositeType>( t ) ) {
                    unsigned tag = c->getTag();
                    if ( tag != dwarf::DW_TAG_class_type && tag != dwarf::DW_TAG_structure_type && tag != dwarf::DW_TAG_enumeration_type )
                        continue;
                    if ( c->isForwardDecl() )
                        continue;
                    js.object( [&] {
                        js.attribute( "name", diTypeName( c ) );
                        js.attribute( "file", c->getFilename() );
                        js.attribute( "line", (int64_t)c->getLine() );
                        js.attribute( "size", (int64_t)( c->getSizeInBits() / 8 ) );
                        js.attribute( "enum", tag == dwarf::DW_TAG_enumeration_type );
                        js.attributeArray( "members", [&] {
                            for ( auto * e : c->getElements() ) {
                                if ( auto * d = dyn_cast<DIDerivedType>( e ) ) {
                                    if ( d->getTag() == dwarf::DW_TAG_member && !d->isStaticMember() )
                                        js.object( [&] {
                                            js.attribute( "n", d->getName() );
                                            js.attribute( "off", (int64_t)( d->getOffsetInBits() / 8 ) );
                                            js.attribute( "sz", (int64_t)( d->getSizeInBits() / 8 ) );
                                            js.attribute( "t", diTypeName( d->getBaseType() ) );
                                        } );
                                    else if ( d->getTag() == dwarf::DW_TAG_inheritance )
                                        js.object( [&] {
                                            js.attribute( "n", "<base>" );
                                            js.attribute( "off", (int64_t)( d->getOffsetInBits() / 8 ) );
                                            js.attribute( "t", diTypeName( d->getBaseType() ) );
                                        } );
                                }
                                else if ( auto * en = dyn_cast<DIEnumerator>( e ) )
                                    js.object( [&] {
                                        js.attribute( "n", en->getName() );
                                        js.attribute( "v", en->getValue().getSExtValue() );
                                    } );
                            }
                        } );
                    } );
                }
        } );
        // types last: the walk above interned all that are used
        js.attributeArray( "types", [&] {
            for ( size_t i = 0; i < typeList.size(); ++i )
                dumpType( typeList[i] );
        } );
    } );
    os << "\n";
    return 0;
}
