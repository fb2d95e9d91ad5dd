BASE=['arolla/dense_array/bitmap.cc','arolla/memory/raw_buffer_factory.cc','arolla/util/fingerprint.cc','arolla/util/preallocated_buffers.cc']
AGG='arolla/qexpr/operators/aggregation/group_op_accumulators.h'
SEEDS=[
dict(id='p06_nan_in_range',property='P06',needs='casting NaN to an integer type',
 what='a NaN passes the range check of casts to integers',
 edits=[('arolla/qexpr/operators/core/cast_operator.h','''      if (range_min <= src && src <= range_max) {
        return ReturnType(static_cast<DST>(src));
      } else {''','''      if (!(src < range_min || range_max < src)) {
        return ReturnType(static_cast<DST>(src));
      } else {''')],
 srcs=['arolla/util/repr.cc','arolla/util/fingerprint.cc'],
 demo='''#include "arolla/qexpr/operators/core/cast_operator.h"
#include <cstdio>
#include <cmath>
using namespace arolla;
int main(){ volatile float f=std::nanf(""); volatile double d=std::nan(""); if(CastOp<int32_t>()((float)f).ok()||CastOp<int64_t>()((double)d).ok()||CastOp<uint64_t>()((float)f).ok()){printf("NaN became an integer\\n");return 1;} return !CastOp<int32_t>()(1.5f).ok(); }
'''),
dict(id='p14_collapse_nan_state',property='P14',needs='collapsing floating-point groups where a group starting with NaN precedes a group of several equal numbers',
 what='collapse remembers across groups that it has seen NaN',
 edits=[(AGG,'''        is_nan_ = std::isnan(value);
''','''        is_nan_ = is_nan_ || std::isnan(value);
''')],
 srcs=[],
 demo='''#include "arolla/qexpr/operators/aggregation/group_op_accumulators.h"
#include <cstdio>
#include <cmath>
using namespace arolla;
int main(){ CollapseAccumulator<float> c; c.Reset(); c.Add(NAN); (void)c.GetResult(); c.Reset(); c.Add(2.f); c.Add(2.f); auto r=c.GetResult(); if(!r.present||r.value!=2.f){printf("equal numbers do not collapse\\n");return 1;} return 0; }
'''),
dict(id='p14_inverse_cdf_state',property='P14',needs='an inverse-CDF aggregation of an empty group that follows a non-empty group without values read in between',
 what='the inverse distribution is cleared lazily: a group without values is given those of the group before it',
 edits=[(AGG,'''  void Reset() final { values_.clear(); };

  void Add(view_type_t<T> v) final { values_.push_back(v); }

  OptionalValue<view_type_t<T>> GetResult() final {
    if (!status_.ok()) {
      return std::nullopt;
    }
''','''  void Reset() final {};

  void Add(view_type_t<T> v) final {
    if (done_) values_.clear();
    done_ = false;
    values_.push_back(v);
  }

  OptionalValue<view_type_t<T>> GetResult() final {
    if (!status_.ok()) {
      return std::nullopt;
    }
    if (done_) values_.clear();
    done_ = !values_.empty();
'''),(AGG,'''  // CDF values to use for each result.
  float cdf_;

  absl::Status status_;
};

template <typename T>
class CollapseAccumulator''','''  // CDF values to use for each result.
  float cdf_;

  bool done_ = false;

  absl::Status status_;
};

template <typename T>
class CollapseAccumulator''')],
 srcs=[],
 demo='''#include "arolla/qexpr/operators/aggregation/group_op_accumulators.h"
#include <cstdio>
using namespace arolla;
int main(){ InverseCdfAccumulator<int> c(0.5f); c.Reset(); c.Add(7); c.Reset(); c.Add(1); c.Add(1); c.Add(1); auto a=c.GetResult(); c.Reset(); c.Add(9); c.Reset(); auto b=c.GetResult(); if(b.present){printf("an empty group has a value\\n");return 1;} return !(a.present&&a.value==1); }
'''),
dict(id='p15_max_offset',property='P15',needs='a binary operation on two dense arrays whose presence bitmaps start at different bits',
 what='the result of a binary operation is read at the larger of the two bit offsets',
 edits=[('arolla/dense_array/ops/dense_ops.h','''        res_bit_offset =
            std::min(arg1.bitmap_bit_offset, arg2.bitmap_bit_offset);''','''        res_bit_offset =
            std::max(arg1.bitmap_bit_offset, arg2.bitmap_bit_offset);''')],
 srcs=BASE+['arolla/util/status.cc'],
 demo='''#include "arolla/dense_array/ops/dense_ops.h"
#include <cstdio>
using namespace arolla;
int main(){ auto a=CreateDenseArray<int>({1,std::nullopt,3,4,std::nullopt,6,7,8}), b=CreateDenseArray<int>({1,2,3,std::nullopt,5,std::nullopt,7,8});
 auto fn=[](int x,int y){return x+y;}; auto op=CreateDenseOp<DenseOpFlags::kRunOnMissing>(fn); auto x=a.Slice(1,5), y=b.Slice(3,5); auto r=op(x,y); if(!r.ok()) return 1;
 for(int i=0;i<5;++i) if((*r)[i].present!=(x[i].present&&y[i].present)){printf("%d\\n",i);return 1;} return 0; }
'''),
dict(id='p11_default_offset',property='P11',needs='reshuffling a string buffer that does not start at its first character with a default value',
 what='the default value of a reshuffle is looked up without the base offset of the source',
 edits=[('arolla/memory/strings_buffer.cc','offset_type def_value_offset = base_offset_ + characters_.size();','offset_type def_value_offset = std::max<offset_type>(base_offset_, characters_.size());')],
 srcs=BASE+['arolla/memory/strings_buffer.cc'],
 demo='''#include "arolla/memory/strings_buffer.h"
#include "arolla/memory/buffer.h"
#include <cstdio>
using namespace arolla;
int main(){ auto s=CreateBuffer<std::string>({"hello","big","world","!"}).Slice(2,2).DeepCopy(); StringsBuffer::ReshuffleBuilder b(3,s,absl::string_view("dflt")); b.CopyValue(1,0);
 auto r=std::move(b).Build(); if(r[0]!="dflt"||r[1]!="world"||r[2]!="dflt"){printf("default\\n");return 1;} return 0; }
'''),
dict(id='p04_gallop_halving',property='P04',needs='a galloping search that ends right after a doubled step',
 what='the galloping search halves its step once too often',
 edits=[('arolla/util/binary_search.h','''  while (d > 1) {
    d >>= 1;
    if (i + d < size && begin[i + d] < value) {
      i += d;
    }
  }''','''  for (d >>= 1; d > 1; d >>= 1) {
    if (i + d < size && begin[i + d] < value) {
      i += d;
    }
  }''')],
 srcs=[],
 demo='''#include "arolla/util/binary_search.h"
#include <cstdio>
#include <vector>
#include <algorithm>
using namespace arolla;
int main(){ std::vector<int> v; for(int i=0;i<40;++i) v.push_back(i*2); for(int k=-1;k<82;++k) if(GallopingLowerBound(v.begin(),v.end(),k)!=std::lower_bound(v.begin(),v.end(),k)){printf("%d\\n",k);return 1;} return 0; }
'''),
dict(id='p07_or_all_missing_word',property='P07',needs='the union of two dense arrays where the present elements of the first all lie in its last partial bitmap word',
 what='an array whose only present elements lie past the last full bitmap word counts as all missing',
 edits=[('arolla/dense_array/bitmap.h','((*bitmap >> suffixBitCount) << suffixBitCount) == *bitmap;','bitmap[-static_cast<int>(bitCount > kWordBitCount)] == 0;')],
 srcs=BASE+['arolla/util/status.cc','arolla/util/unit.cc'],
 demo='''#include "arolla/qexpr/operators/dense_array/logic_ops.h"
#include <cstdio>
#include <vector>
using namespace arolla;
int main(){ std::vector<OptionalValue<int>> a(40), b(40,OptionalValue<int>(7)); a[35]=3; EvaluationContext ctx; auto r=DenseArrayPresenceOrOp()(&ctx,CreateDenseArray<int>(absl::MakeConstSpan(a)),CreateDenseArray<int>(absl::MakeConstSpan(b))); if(!r.ok()) return 1;
 for(int i=0;i<40;++i) if((*r)[i]!=OptionalValue<int>(i==35?3:7)){printf("%d\\n",i);return 1;} return 0; }
'''),
dict(id='p21_nan_is_low',property='P21',needs='evaluating a curve at NaN in double precision',
 what='NaN counts as left of the first control point',
 edits=[('arolla/pwlcurve/curves.cc','    if (x <= front_.x) {','    if (!(x > front_.x)) {')],
 srcs=['arolla/pwlcurve/curves.cc'],
 demo='''#include "arolla/pwlcurve/curves.h"
#include <cstdio>
#include <cmath>
using namespace arolla::pwlcurve;
int main(){ auto c=NewCurve(CurveType::PWLCurve,{{1.,2.},{2.,5.}}); if(!c.ok()) return 1; double y=(*c)->Eval(std::nan("")); if(!std::isnan(y)){printf("%f\\n",y);return 1;} return (*c)->Eval(1.5)!=3.5; }
'''),
]
