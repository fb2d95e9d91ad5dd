IDC='arolla/array/id_filter.cc'; LRU='arolla/util/lru_cache.h'; AR='arolla/qexpr/operators/math/arithmetic.h'; FR='arolla/memory/frame.cc'; DE='arolla/dense_array/edge.cc'
BASE=['arolla/dense_array/bitmap.cc','arolla/memory/raw_buffer_factory.cc','arolla/util/fingerprint.cc','arolla/util/preallocated_buffers.cc']
EDGE=BASE+['arolla/array/edge.cc','arolla/array/id_filter.cc','arolla/dense_array/edge.cc','arolla/util/status.cc']
SEEDS=[
dict(id='p09_merge_tail_offset',property='P09',needs='merging two sparse filters with different ids_offset where the ids of the second one extend past those of the first',
 what='the tail of the second filter is added with the offset of the first one',
 edits=[(IDC,'inserter.Add(*(ib++) - b.ids_offset());','inserter.Add(*(ib++) - a.ids_offset());')],
 srcs=BASE+['arolla/array/id_filter.cc'],
 demo='''#include "arolla/array/id_filter.h"
#include <cstdio>
#include <vector>
using namespace arolla;
int main(){ IdFilter a(1000,CreateBuffer<int64_t>({12,15}),10), b(1000,CreateBuffer<int64_t>({103,150,400}),100);
 IdFilter r=IdFilter::UpperBoundMerge(1000,GetHeapBufferFactory(),a,b); std::vector<int64_t> want{2,3,5,50,300};
 if(r.type()!=IdFilter::kPartial) return 0; if(r.ids().size()!=want.size()) return 1;
 for(size_t i=0;i<want.size();++i) if(r.ids()[i]-r.ids_offset()!=want[i]){printf("id %zu\\n",i);return 1;} return 0; }
'''),
dict(id='p20_replaced_weight',property='P20',needs='replacing an entry by one of another weight and later evicting it',
 what='the recorded weight of a replaced entry stays the old one, so the used capacity is wrong after its eviction or next replacement',
 edits=[(LRU,'      it->entry->weight = weight;\n','')],
 srcs=[],
 demo='''#include "arolla/util/lru_cache.h"
#include "absl/hash/hash.h"
#include <cstdio>
#include <functional>
using namespace arolla;
int main(){ LruCache<int,int,absl::Hash<int>,std::equal_to<int>> c(10); (void)c.Put(1,1,1); (void)c.Put(1,2,9); (void)c.Put(2,2,9); (void)c.Put(3,3,1);
 if(!c.LookupOrNull(2)||!c.LookupOrNull(3)){printf("an entry was evicted although all fit\\n");return 1;} return 0; }
'''),
dict(id='p05_floordiv_bias',property='P05',needs='a dividend next to the most negative or most positive integer and a divisor of the other sign with magnitude over one',
 what='floor division biases the dividend before dividing, which overflows near the limits',
 edits=[(AR,'''        return static_cast<T>(static_cast<UT>(lhs / rhs) -
                              static_cast<UT>((lhs % rhs) != 0));''','''        const UT bias = rhs > 0 ? static_cast<UT>(1) - static_cast<UT>(rhs)
                                : static_cast<UT>(-1) - static_cast<UT>(rhs);
        return static_cast<T>(static_cast<UT>(lhs) + bias) / rhs;''')],
 srcs=[],
 demo='''#include "arolla/qexpr/operators/math/arithmetic.h"
#include <cstdio>
#include <cstdint>
using namespace arolla;
template<class T,class W> int go(){ T lim[]={std::numeric_limits<T>::min(),T(std::numeric_limits<T>::min()+1),T(std::numeric_limits<T>::min()+5),-7,-1,0,1,6,T(std::numeric_limits<T>::max()-3),std::numeric_limits<T>::max()};
 for(T a:lim) for(T b:lim) if(b){ W q=W(a)/W(b); if(W(a)%W(b)&&((a<0)!=(b<0)))--q; auto r=FloorDivOp()(a,b); if(!r.ok()||*r!=T(q)){printf("%lld %lld\\n",(long long)a,(long long)b);return 1;} } return 0; }
int main(){ return go<int32_t,int64_t>()||go<int64_t,__int128>(); }
'''),
dict(id='p12_subframe_alignment',property='P12',needs='a sub-frame whose alignment exceeds that of every slot of the frame that embeds it',
 what='the alignment required by a frame ignores its sub-frames',
 edits=[(FR,'  alloc_alignment_ = std::max(alloc_alignment_, subframe.AllocAlignment());\n','')],
 srcs=['arolla/memory/frame.cc'],
 demo='''#include "arolla/memory/frame.h"
#include <cstdio>
using namespace arolla;
struct alignas(16) Big { char c[16]; };
int main(){ FrameLayout::Builder s; (void)s.AddSlot<int>(); (void)s.AddSlot<Big>(); FrameLayout sub=std::move(s).Build();
 FrameLayout::Builder b; (void)b.AddSlot<char>(); (void)b.AddSubFrame(sub); FrameLayout l=std::move(b).Build();
 if(l.AllocAlignment()<16){printf("alignment %zu\\n",l.AllocAlignment());return 1;} return 0; }
'''),
dict(id='p10_compose_missing',property='P10',needs='composing mapping edges where a child maps to a row that itself maps to nothing',
 what='composing mapping edges reads the value of a missing entry: an orphan child gets a parent',
 edits=[(DE,'bldr.Set(id, mapping_edge.edge_values()[value]);','bldr.Set(id, mapping_edge.edge_values().values[value]);')],
 srcs=EDGE,
 demo='''#include "arolla/dense_array/edge.h"
#include "arolla/dense_array/dense_array.h"
#include <cstdio>
using namespace arolla;
int main(){ auto a=DenseArrayEdge::FromMapping(CreateDenseArray<int64_t>({1,std::nullopt,0}),2), b=DenseArrayEdge::FromMapping(CreateDenseArray<int64_t>({0,1,2,std::nullopt,1}),3);
 auto r=DenseArrayEdge::ComposeEdges({*a,*b}); if(!r.ok()) return 1; auto m=r->ToMappingEdge().edge_values();
 OptionalValue<int64_t> want[]={1,std::nullopt,0,std::nullopt,std::nullopt}; for(int i=0;i<5;++i) if(m.present(i)!=want[i].present||(want[i].present&&m.values[i]!=want[i].value)){printf("child %d\\n",i);return 1;} return 0; }
'''),
dict(id='p22_equivalence_last',property='P22',needs='two shapes of rank two or more with equal sizes in every dimension that differ only in how the last dimension is grouped',
 what='the equivalence of jagged shapes ignores the grouping of the last dimension',
 edits=[('arolla/jagged_shape/jagged_shape.h','''    // Note: we start from `1` since size of the first edge is already verified.
    for (size_t i = 1; i < rank(); ++i) {''','''    // Note: all sizes are already verified.
    for (size_t i = 1; i + 1 < rank(); ++i) {''')],
 srcs=EDGE,
 demo='''#include "arolla/jagged_shape/dense_array/jagged_shape.h"
#include <cstdio>
using namespace arolla;
static DenseArrayEdge e(std::initializer_list<OptionalValue<int64_t>> v){ return *DenseArrayEdge::FromSplitPoints(CreateDenseArray<int64_t>(absl::MakeConstSpan(v.begin(),v.size()))); }
int main(){ auto a=JaggedDenseArrayShape::FromEdges({e({0,2}),e({0,1,2}),e({0,1,4})}), b=JaggedDenseArrayShape::FromEdges({e({0,2}),e({0,1,2}),e({0,3,4})});
 if(!a.ok()||!b.ok()) return 1; if(a->IsEquivalentTo(*b)){printf("different shapes are equivalent\\n");return 1;} return !a->IsEquivalentTo(*a); }
'''),
dict(id='p16_sparse_tail',property='P16',needs='a sparse array whose last rows are not stored, converted to another value for missing ids',
 what='rows after the last stored id are lost when the value for missing ids changes',
 edits=[('arolla/array/array.h','  while (next_id < size_) inserter.Add(next_id++);\n\n','')],
 srcs=BASE+['arolla/array/array.cc','arolla/array/id_filter.cc','arolla/memory/strings_buffer.cc','arolla/dense_array/dense_array.cc','arolla/util/bytes.cc','arolla/util/text.cc','arolla/util/unit.cc','arolla/util/repr.cc'],
 demo='''#include "arolla/array/array.h"
#include <cstdio>
using namespace arolla;
int main(){ Array<int> a(20,IdFilter(20,CreateBuffer<int64_t>({1,4})),CreateDenseArray<int>({5,std::nullopt}),7);
 Array<int> b=a.ToSparseForm(9); for(int i=0;i<20;++i) if(a[i].present!=b[i].present||(a[i].present&&a[i].value!=b[i].value)){printf("row %d\\n",i);return 1;} return 0; }
'''),
dict(id='p17_verysparse_group_step',property='P17',needs='an aggregation of a sparse array over split points with most groups empty, where a present child is the first one of its group',
 what='the very-sparse aggregation over split points assigns a child that starts a group to the previous group',
 edits=[('arolla/array/group_op.h','splits.end(), child_id + 1) -','splits.end(), child_id) -'),('arolla/array/group_op.h','if (child_id >= splits[next_parent_id]) {','if (next_parent_id == 0 || child_id >= splits[next_parent_id]) {')],
 srcs=EDGE,
 demo='''#include "arolla/array/group_op.h"
#include "arolla/qexpr/operators/aggregation/group_op_accumulators.h"
#include <cstdio>
using namespace arolla;
int main(){ Buffer<int64_t>::Builder s(101); for(int i=0;i<=100;++i) s.Set(i,i*10); auto e=ArrayEdge::FromSplitPoints(Array<int64_t>(std::move(s).Build()));
 Array<int64_t> v(1000,IdFilter(1000,CreateBuffer<int64_t>({30,31,505})),CreateDenseArray<int64_t>({1,2,4}));
 ArrayGroupOp<SumAccumulator<int64_t, AccumulatorType::kAggregator>> op(GetHeapBufferFactory()); auto r=op.Apply(*e,v); if(!r.ok()) return 1;
 for(int i=0;i<100;++i){ auto x=(*r)[i]; int64_t w=i==3?3:i==50?4:0; if((x.present?x.value:0)!=w){printf("group %d\\n",i);return 1;} } return 0; }
'''),
dict(id='p18_rfind_past_end',property='P18',needs='searching backwards in a range shorter than the wanted text that occurs later in the string',
 what='the backward search starts past the end of the range when the text looked for is longer than the position of the end',
 edits=[('arolla/qexpr/operators/strings/find.cc','''  auto pos = str.substr(start, end - start).rfind(substr);
  if (pos != absl::string_view::npos) {
    result = static_cast<int64_t>(pos) + start;''','''  auto pos = str.rfind(substr, static_cast<size_t>(end) - substr.size());
  if (pos != absl::string_view::npos && static_cast<int64_t>(pos) >= start) {
    result = static_cast<int64_t>(pos);''')],
 srcs=['arolla/qexpr/operators/strings/find.cc','arolla/qexpr/operators/strings/strings.cc','arolla/util/bytes.cc','arolla/util/text.cc'],
 demo='''#include "arolla/qexpr/operators/strings/find.h"
#include <cstdio>
using namespace arolla;
int main(){ BytesFindLastSubstringOp f; auto r=f(Bytes("ab hello"),Bytes("hello"),OptionalValue<int64_t>(0),OptionalValue<int64_t>(3)); if(r.present){printf("found at %d\\n",(int)r.value);return 1;}
 auto q=f(Bytes("hello hello"),Bytes("hello"),OptionalValue<int64_t>(),OptionalValue<int64_t>(8)); return !(q.present&&q.value==0); }
'''),
dict(id='p13_assign_from_owned',property='P13',needs='assigning to a pointer from a pointer that only the old object keeps alive',
 what='copy assignment releases the old object before it reads the source, which may live inside the old object',
 edits=[('arolla/util/refcount_ptr.h','''      const auto tmp = std::move(*this);
      ptr_ = rhs.ptr_;
      if''','''      reset();
      ptr_ = rhs.ptr_;
      if''')],
 demo='''#include "arolla/util/refcount_ptr.h"
#include <utility>
using namespace arolla;
struct N : RefcountedBase { RefcountPtr<N> next; int v; explicit N(int v):v(v){} };
int main(){ auto p=RefcountPtr<N>::Make(1); p->next=RefcountPtr<N>::Make(2); p=p->next; return p->v!=2; }
'''),
dict(id='p19_range_left_bound',property='P19',needs='a forest with interactions evaluated with bitmasks and a value equal to the left bound of an interval bounded on both sides',
 what='the bitmask evaluator treats the left bound of an interval as exclusive',
 edits=[('arolla/decision_forest/pointwise_evaluation/bitmask_eval.cc','if (range_split.left > v.value) break;','if (!(range_split.left < v.value)) break;')],
 srcs='FOREST',
 demo='''#include "arolla/decision_forest/decision_forest.h"
#include "arolla/decision_forest/pointwise_evaluation/forest_evaluator.h"
#include "arolla/decision_forest/split_conditions/interval_split_condition.h"
#include "arolla/memory/memory_allocation.h"
#include "cityhash/city.h"
#include <cstdio>
namespace third_party_cityhash {  // (any deterministic function will do)
static uint64 mix(const char* p,size_t n,uint64 h){ for(size_t i=0;i<n;++i) h=(h^(unsigned char)p[i])*0x100000001b3ull; return h; }
uint64 CityHash64(const char* p,size_t n){ return mix(p,n,1); }
uint64 CityHash64WithSeed(const char* p,size_t n,uint64 s){ return mix(p,n,s); }
uint128 CityHash128WithSeed(const char* p,size_t n,uint128 s){ return {mix(p,n,s.first),mix(p,n,s.second+7)}; }
}
using namespace arolla;
int main(){ DecisionTree t; auto S=DecisionTreeNodeId::SplitNodeId; auto A=DecisionTreeNodeId::AdjustmentId;
 t.split_nodes={{S(1),S(2),IntervalSplit(0,1.5f,2.5f)},{A(0),A(1),IntervalSplit(1,0.5f,3.5f)},{A(2),A(3),IntervalSplit(1,2.0f,2.0f)}}; t.adjustments={1,2,4,8};
 auto f=DecisionForest::FromTrees({t}); if(!f.ok()) return 1;
 FrameLayout::Builder b; auto s0=b.AddSlot<OptionalValue<float>>(), s1=b.AddSlot<OptionalValue<float>>(); auto l=std::move(b).Build(); std::vector<TypedSlot> in{TypedSlot::FromSlot(s0),TypedSlot::FromSlot(s1)};
 auto e=SimpleForestEvaluator::Compile(**f,in); if(!e.ok()) return 1; MemoryAllocation m(&l); FramePtr p=m.frame();
 for(float x:{0.5f,1.5f,2.0f,2.5f,3.f}) for(float y:{0.5f,2.f,3.5f,4.f}){ p.Set(s0,x); p.Set(s1,y); if(e->Eval(p)!=DecisionForestNaiveEvaluation(**f,p,in)){printf("%f %f\\n",x,y);return 1;} } return 0; }
'''),
]
if not __import__('os').environ.get('SEED_FOREST'): SEEDS=[S for S in SEEDS if S.get('srcs')!='FOREST']  # (its demo compiles 40 files)
import sys; sys.path.insert(0,'/verif/vc'); import props
for S in SEEDS:
    if S.get('srcs')=='FOREST': S['srcs']=props.PROPS['P19']['units'][0]['srcs']
