// Dumps an LLVM module as JSON for the value-flow engine in /verif/sa.
// usage: irdump IN.bc OUT.json
// Every function reachable from a function whose name starts with "W_" (and
// from static initialisers) is emitted with its blocks; address arithmetic is
// decomposed into base + constant + sum(operand * scale) with the module's
// data layout, and global initialisers are flattened to (offset, value) cells.
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/GlobalAlias.h"
#include "llvm/IR/GlobalVariable.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/ADT/MapVector.h"
#include "llvm/ADT/SmallString.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <map>
#include <set>
#include <string>
using namespace llvm;

static const DataLayout* DL;
static raw_ostream* O;
static std::set<const Function*> seenF;
static std::deque<const Function*> workF;
static std::set<const GlobalVariable*> seenG;
static std::deque<const GlobalVariable*> workG;
static std::map<std::string,int> files;

static std::string esc( StringRef s )
{
    std::string r = "\"";
    for( unsigned char c : s )
    {
        if( c == '"' || c == '\\' ) { r += '\\'; r += c; }
        else if( c < 32 || c > 126 ) { char b[8]; snprintf( b, 8, "\\u%04x", c ); r += b; }
        else r += c;
    }
    return r + "\"";
}

static std::string ty( Type* t )
{
    if( t->isIntegerTy( )) return "\"i" + std::to_string( t->getIntegerBitWidth( )) + "\"";
    if( t->isFloatTy( )) return "\"f32\"";
    if( t->isDoubleTy( )) return "\"f64\"";
    if( t->isX86_FP80Ty( )) return "\"f80\"";
    if( t->isPointerTy( )) return "\"p\"";
    if( t->isVoidTy( )) return "\"void\"";
    if( auto* v = dyn_cast< FixedVectorType >( t ))
        return "[\"V\"," + std::to_string( v->getNumElements( )) + "," +
               std::to_string( DL->getTypeStoreSize( v->getElementType( ))) + "," +
               ty( v->getElementType( )) + "]";
    if( auto* a = dyn_cast< ArrayType >( t ))
        return "[\"A\"," + std::to_string( a->getNumElements( )) + "," +
               std::to_string( DL->getTypeAllocSize( a->getElementType( ))) + "," +
               ty( a->getElementType( )) + "]";
    if( auto* s = dyn_cast< StructType >( t ))
    {
        if( s->isOpaque( )) return "\"opaque\"";
        const StructLayout* l = DL->getStructLayout( s );
        std::string r = "[\"S\"," + std::to_string( (uint64_t)l->getSizeInBytes( )) + ",[";
        for( unsigned i = 0; i < s->getNumElements(); ++i )
            r += ( i ? ",[" : "[" ) + std::to_string( (uint64_t)l->getElementOffset( i )) + "," +
                 ty( s->getElementType( i )) + "]";
        return r + "]]";
    }
    return "\"other\"";
}
static uint64_t szOf( Type* t ) { return t->isSized() ? (uint64_t)DL->getTypeAllocSize( t ) : 0; }

static DenseMap< const Value*, int >* ids;

static void needF( const Function* f ) { if( seenF.insert( f ).second ) workF.push_back( f ); }
static void needG( const GlobalVariable* g ) { if( seenG.insert( g ).second ) workG.push_back( g ); }

static std::string val( const Value* v );

static std::string apf( const APFloat& f )
{
    SmallString<40> s;
    f.bitcastToAPInt().toString( s, 16, false );
    return std::string( s.str( ));
}

static std::string cst( const Constant* c )
{
    if( auto* i = dyn_cast< ConstantInt >( c ))
    {
        SmallString<40> s; i->getValue().toString( s, 10, false );
        return "[\"i\"," + std::to_string( i->getBitWidth( )) + "," + std::string( s.str( )) + "]";
    }
    if( auto* f = dyn_cast< ConstantFP >( c ))
        return "[\"f\"," + ty( f->getType( )) + ",\"" + apf( f->getValueAPF( )) + "\"]";
    if( isa< ConstantPointerNull >( c )) return "[\"n\"]";
    if( isa< UndefValue >( c )) return "[\"u\"," + ty( c->getType( )) + "]";
    if( isa< ConstantAggregateZero >( c )) return "[\"z\"," + ty( c->getType( )) + "]";
    if( auto* a = dyn_cast< GlobalAlias >( c ))
        return cst( cast< Constant >( a->getAliasee( )));
    if( auto* f = dyn_cast< Function >( c ))
    { needF( f ); return "[\"fn\"," + esc( f->getName( )) + "]"; }
    if( auto* g = dyn_cast< GlobalVariable >( c ))
    { needG( g ); return "[\"g\"," + esc( g->getName( )) + ",0]"; }
    if( auto* d = dyn_cast< ConstantDataSequential >( c ))
    {
        std::string r = "[\"agg\"," + ty( c->getType( )) + ",[";
        for( unsigned i = 0; i < d->getNumElements(); ++i )
            r += ( i ? "," : "" ) + cst( d->getElementAsConstant( i ));
        return r + "]]";
    }
    if( isa< ConstantAggregate >( c ))
    {
        std::string r = "[\"agg\"," + ty( c->getType( )) + ",[";
        for( unsigned i = 0; i < c->getNumOperands(); ++i )
            r += ( i ? "," : "" ) + cst( cast< Constant >( c->getOperand( i )));
        return r + "]]";
    }
    if( auto* e = dyn_cast< ConstantExpr >( c ))
    {
        if( auto* g = dyn_cast< GEPOperator >( e ))
        {
            APInt off( 64, 0 );
            if( g->accumulateConstantOffset( *DL, off ))
                return "[\"off\"," + cst( cast< Constant >( g->getPointerOperand( ))) + "," +
                       std::to_string( off.getSExtValue( )) + "]";
        }
        if( e->isCast( )) return "[\"cast\"," + ty( e->getType( )) + "," +
                       cst( cast< Constant >( e->getOperand( 0 ))) + "]";
        std::string r = "[\"ce\"," + esc( e->getOpcodeName( )) + "," + ty( e->getType( )) + ",[";
        for( unsigned i = 0; i < e->getNumOperands(); ++i )
            r += ( i ? "," : "" ) + cst( cast< Constant >( e->getOperand( i )));
        return r + "]]";
    }
    return "[\"?\"]";
}

static std::string val( const Value* v )
{
    if( auto* c = dyn_cast< Constant >( v )) return cst( c );
    if( isa< InlineAsm >( v )) return "[\"asm\"]";
    auto it = ids->find( v );
    if( it == ids->end( )) return "[\"md\"]";
    return std::to_string( it->second );
}

static std::string loc( const Instruction& i )
{
    const DebugLoc& d = i.getDebugLoc();
    if( !d ) return "0";
    auto* sc = cast< DIScope >( d.getScope( ));
    std::string f = sc->getFilename().str();
    if( !sc->getDirectory().empty() && !f.empty() && f[0] != '/' ) f = sc->getDirectory().str() + "/" + f;
    auto r = files.insert( { f, (int)files.size() } );
    return "[" + std::to_string( r.first->second ) + "," + std::to_string( d.getLine( )) + "]";
}

static void dumpInst( const Instruction& I, DenseMap< const BasicBlock*, int >& bb )
{
    raw_ostream& o = *O;
    o << "{\"o\":\"" << I.getOpcodeName() << "\",\"d\":" << val( &I ) << ",\"t\":" << ty( I.getType( ))
      << ",\"l\":" << loc( I );
    if( auto* a = dyn_cast< AllocaInst >( &I ))
    {
        o << ",\"s\":" << szOf( a->getAllocatedType( )) << ",\"n\":" << val( a->getArraySize( ))
          << ",\"nm\":" << esc( a->getName( ));
    }
    else if( auto* l = dyn_cast< LoadInst >( &I ))
        o << ",\"a\":[" << val( l->getPointerOperand( )) << "],\"s\":" << (uint64_t)DL->getTypeStoreSize( I.getType( ))
          << ",\"v\":" << ( l->isVolatile() || l->isAtomic() );
    else if( auto* s = dyn_cast< StoreInst >( &I ))
        o << ",\"a\":[" << val( s->getValueOperand( )) << "," << val( s->getPointerOperand( )) << "],\"vt\":"
          << ty( s->getValueOperand()->getType( )) << ",\"s\":"
          << (uint64_t)DL->getTypeStoreSize( s->getValueOperand()->getType( ));
    else if( auto* g = dyn_cast< GetElementPtrInst >( &I ))
    {
        MapVector< Value*, APInt > var; APInt c( 64, 0 );
        bool ok = cast< GEPOperator >( g )->collectOffset( *DL, 64, var, c );
        o << ",\"ok\":" << ok << ",\"a\":[" << val( g->getPointerOperand( )) << "],\"c\":" << c.getSExtValue() << ",\"x\":[";
        bool f = true;
        for( auto& kv : var )
        { o << ( f ? "" : "," ) << "[" << val( kv.first ) << "," << kv.second.getSExtValue() << "]"; f = false; }
        o << "]";
    }
    else if( auto* p = dyn_cast< PHINode >( &I ))
    {
        o << ",\"in\":[";
        for( unsigned i = 0; i < p->getNumIncomingValues(); ++i )
            o << ( i ? "," : "" ) << "[" << val( p->getIncomingValue( i )) << "," << bb[ p->getIncomingBlock( i ) ] << "]";
        o << "]";
    }
    else if( auto* c = dyn_cast< CallBase >( &I ))
    {
        const Value* callee = c->getCalledOperand()->stripPointerCasts();
        o << ",\"f\":" << val( callee ) << ",\"a\":[";
        for( unsigned i = 0; i < c->arg_size(); ++i )
            o << ( i ? "," : "" ) << val( c->getArgOperand( i ));
        o << "],\"at\":[";
        for( unsigned i = 0; i < c->arg_size(); ++i )
            o << ( i ? "," : "" ) << ty( c->getArgOperand( i )->getType( ));
        o << "]";
        bool any = false;
        for( unsigned i = 0; i < c->arg_size(); ++i ) any |= c->isByValArgument( i );
        if( any )
        {
            o << ",\"bv\":[";
            for( unsigned i = 0; i < c->arg_size(); ++i )
                o << ( i ? "," : "" ) << ( c->isByValArgument( i ) ? szOf( c->getParamByValType( i )) : 0 );
            o << "]";
        }
        if( auto* iv = dyn_cast< InvokeInst >( c ))
            o << ",\"nd\":" << bb[ iv->getNormalDest() ] << ",\"ud\":" << bb[ iv->getUnwindDest() ];
    }
    else if( auto* b = dyn_cast< BranchInst >( &I ))
    {
        o << ",\"b\":[";
        for( unsigned i = 0; i < b->getNumSuccessors(); ++i )
            o << ( i ? "," : "" ) << bb[ b->getSuccessor( i ) ];
        o << "]";
        if( b->isConditional( )) o << ",\"a\":[" << val( b->getCondition( )) << "]";
    }
    else if( auto* s = dyn_cast< SwitchInst >( &I ))
    {
        o << ",\"a\":[" << val( s->getCondition( )) << "],\"df\":" << bb[ s->getDefaultDest() ] << ",\"cs\":[";
        bool f = true;
        for( auto& k : s->cases( ))
        { o << ( f ? "" : "," ) << "[" << val( k.getCaseValue( )) << "," << bb[ k.getCaseSuccessor() ] << "]"; f = false; }
        o << "]";
    }
    else
    {
        o << ",\"a\":[";
        for( unsigned i = 0; i < I.getNumOperands(); ++i )
            o << ( i ? "," : "" ) << val( I.getOperand( i ));
        o << "]";
        if( I.getNumOperands( )) o << ",\"st\":" << ty( I.getOperand( 0 )->getType( ));
        if( auto* c = dyn_cast< CmpInst >( &I ))
            o << ",\"p\":\"" << CmpInst::getPredicateName( c->getPredicate( )) << "\"";
        if( auto* e = dyn_cast< ExtractValueInst >( &I ))
        { o << ",\"ix\":["; bool f = true; for( unsigned k : e->indices( )) { o << ( f ? "" : "," ) << k; f = false; } o << "]"; }
        if( auto* e = dyn_cast< InsertValueInst >( &I ))
        { o << ",\"ix\":["; bool f = true; for( unsigned k : e->indices( )) { o << ( f ? "" : "," ) << k; f = false; } o << "]"; }
        if( auto* e = dyn_cast< ShuffleVectorInst >( &I ))
        { o << ",\"mask\":["; bool f = true; for( int k : e->getShuffleMask( )) { o << ( f ? "" : "," ) << k; f = false; } o << "]"; }
        if( auto* e = dyn_cast< LandingPadInst >( &I ))
            o << ",\"cl\":" << e->isCleanup() << ",\"nc\":" << e->getNumClauses();
        if( isa< AtomicRMWInst >( &I ) || isa< AtomicCmpXchgInst >( &I ) || isa< FenceInst >( &I ))
            o << ",\"atomic\":1";
    }
    o << "}";
}

static void flat( const Constant* c, uint64_t off, bool& first )
{
    raw_ostream& o = *O;
    Type* t = c->getType();
    if( isa< ConstantAggregateZero >( c ) || isa< UndefValue >( c ))
    {
        o << ( first ? "" : "," ) << "[" << off << "," << szOf( t ) << ",\"" << ( isa< UndefValue >( c ) ? "U" : "Z" ) << "\",0]";
        first = false;
        return;
    }
    if( auto* d = dyn_cast< ConstantDataSequential >( c ))
    {
        uint64_t es = DL->getTypeAllocSize( d->getElementType( ));
        for( unsigned i = 0; i < d->getNumElements(); ++i )
            flat( d->getElementAsConstant( i ), off + i * es, first );
        return;
    }
    if( auto* s = dyn_cast< ConstantStruct >( c ))
    {
        const StructLayout* l = DL->getStructLayout( s->getType( ));
        for( unsigned i = 0; i < s->getNumOperands(); ++i )
            flat( s->getOperand( i ), off + (uint64_t)l->getElementOffset( i ), first );
        return;
    }
    if( isa< ConstantArray >( c ) || isa< ConstantVector >( c ))
    {
        uint64_t es = szOf( c->getOperand( 0 )->getType( ));
        for( unsigned i = 0; i < c->getNumOperands(); ++i )
            flat( cast< Constant >( c->getOperand( i )), off + i * es, first );
        return;
    }
    o << ( first ? "" : "," ) << "[" << off << "," << (uint64_t)DL->getTypeStoreSize( t ) << "," << ty( t ) << "," << cst( c ) << "]";
    first = false;
}

int main( int argc, char** argv )
{
    if( argc < 3 ) return 2;
    LLVMContext ctx; SMDiagnostic err;
    auto m = parseIRFile( argv[1], err, ctx );
    if( !m ) { err.print( argv[0], errs( )); return 3; }
    std::error_code ec;
    raw_fd_ostream out( argv[2], ec );
    if( ec ) return 4;
    O = &out; DL = &m->getDataLayout();
    DenseMap< const Value*, int > none; ids = &none;
    for( auto& f : *m )
        if( f.getName().starts_with( "W_" ) && !f.isDeclaration( )) needF( &f );
    out << "{\"funcs\":{";
    bool firstF = true;
    // static constructors are roots as well
    out.flush();
    if( auto* gc = m->getGlobalVariable( "llvm.global_ctors" )) needG( gc );
    std::string globals;
    auto drainG = [&]()
    {
        while( !workG.empty( ))
        {
            const GlobalVariable* g = workG.front(); workG.pop_front();
            raw_string_ostream so( globals );
            raw_ostream* save = O; O = &so;
            if( !globals.empty( )) so << ",";
            Type* t = g->getValueType();
            so << esc( g->getName( )) << ":{\"s\":" << szOf( t ) << ",\"c\":" << g->isConstant()
               << ",\"tl\":" << g->isThreadLocal() << ",\"dem\":" << esc( demangle( g->getName().str( ))) << ",\"init\":";
            if( g->hasInitializer( )) { so << "["; bool f = true; flat( g->getInitializer(), 0, f ); so << "]"; }
            else so << "null";
            so << "}";
            so.flush(); O = save;
        }
    };
    drainG();
    while( !workF.empty() || !workG.empty( ))
    {
        drainG();
        if( workF.empty( )) continue;
        const Function* f = workF.front(); workF.pop_front();
        DenseMap< const Value*, int > my; ids = &my;
        int n = 0;
        for( auto& a : f->args( )) my[ &a ] = n++;
        DenseMap< const BasicBlock*, int > bb; int nb = 0;
        for( auto& b : *f ) { bb[ &b ] = nb++; for( auto& i : b ) my[ &i ] = n++; }
        out << ( firstF ? "\n" : ",\n" ) << esc( f->getName( )) << ":{\"dem\":" << esc( demangle( f->getName().str( )))
            << ",\"ret\":" << ty( f->getReturnType( )) << ",\"decl\":" << f->isDeclaration()
            << ",\"va\":" << f->isVarArg() << ",\"noret\":" << f->doesNotReturn()
            << ",\"local\":" << f->hasLocalLinkage() << ",\"n\":" << n << ",\"args\":[";
        firstF = false;
        for( unsigned i = 0; i < f->arg_size(); ++i )
        {
            const Argument* a = f->getArg( i );
            out << ( i ? "," : "" ) << "{\"t\":" << ty( a->getType( )) << ",\"bv\":"
                << ( a->hasByValAttr() ? szOf( a->getParamByValType( )) : 0 ) << ",\"sr\":"
                << ( a->hasStructRetAttr() ? szOf( a->getParamStructRetType( )) : 0 ) << ",\"nm\":" << esc( a->getName( )) << "}";
        }
        out << "],\"loc\":";
        if( auto* sp = f->getSubprogram( ))
        {
            std::string fn = sp->getFilename().str();
            if( !fn.empty() && fn[0] != '/' ) fn = sp->getDirectory().str() + "/" + fn;
            auto r = files.insert( { fn, (int)files.size() } );
            out << "[" << r.first->second << "," << sp->getLine() << "]";
        }
        else out << "0";
        out << ",\"blocks\":[";
        bool fb = true;
        for( auto& b : *f )
        {
            out << ( fb ? "[" : ",[" ); fb = false;
            bool fi = true;
            for( auto& i : b )
            {
                if( isa< DbgInfoIntrinsic >( &i )) continue;
                if( !fi ) out << ",\n"; fi = false;
                dumpInst( i, bb );
            }
            out << "]";
        }
        out << "]}";
    }
    out << "},\n\"globals\":{" << globals << "},\n\"files\":[";
    std::vector< std::string > fl( files.size( ));
    for( auto& kv : files ) fl[ kv.second ] = kv.first;
    for( size_t i = 0; i < fl.size(); ++i ) out << ( i ? "," : "" ) << esc( fl[i] );
    out << "]}\n";
    return 0;
}
