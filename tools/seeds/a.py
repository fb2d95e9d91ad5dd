BITS='arolla/util/bits.h'; ALG='arolla/util/algorithms.h'; BM='arolla/dense_array/bitmap.h'; BMC='arolla/dense_array/bitmap.cc'
SEEDS=[
dict(id='p01_next_bit_limit_mask',property='P01',needs='a limit that is a multiple of the word size, with the only set bits in the last word',
 what='FindNextSetBitInVector misses set bits of the last word when the limit is word-aligned',
 edits=[(BITS,'one_word &= ~((~Word{0} - 1) << ((limit - 1) & (kIntBits - 1)));','one_word &= ~(~Word{0} << (limit & (kIntBits - 1)));')],
 demo='''#include "arolla/util/bits.h"
#include <cstdint>
#include <cstdio>
int main(){ for(size_t limit=1;limit<=96;++limit) for(size_t bit=0;bit<96;++bit) for(size_t from=0;from<96;++from){ uint32_t w[3]={0,0,0}; w[bit/32]|=1u<<(bit%32);
 size_t e=limit; for(size_t i=from;i<limit;++i) if((w[i/32]>>(i%32))&1){e=i;break;} size_t g=arolla::FindNextSetBitInVector(w,from,limit); if(g!=e){printf("from %zu limit %zu bit %zu: %zu, want %zu\\n",from,limit,bit,g,e);return 1;} } return 0; }
'''),
dict(id='p01_set_range_wide_fill',property='P01',needs='a range that covers at least one whole word between its end words and whose words already hold bits outside the range in the last word',
 what='SetBitsInRange fills one word too many when the range spans three or more words',
 edits=[(BITS,'''      for (++p; p < bitmap + end_word; ++p) {
        *p = ones;
      }
      *p = *p | end_mask;''','''      size_t full_words = end_word - start_word;
      for (++p; full_words > 1; --full_words, ++p) {
        *p = ones;
      }
      *p = (start & (kIntBits - 1)) == 0 && end_word - start_word > 2
               ? end_mask
               : *p | end_mask;''')],
 demo='''#include "arolla/util/bits.h"
#include <cstdint>
#include <cstdio>
int main(){ for(size_t s=0;s<=160;++s) for(size_t e=s;e<=160;++e) for(uint32_t init: {0u,0x80000001u,0xaaaaaaaau}){ uint32_t w[5]; for(auto&x:w)x=init; arolla::SetBitsInRange(w,s,e);
 for(size_t i=0;i<160;++i){ bool want=(i>=s&&i<e)||((init>>(i%32))&1); if(((w[i/32]>>(i%32))&1)!=want){printf("bit %zu wrong for [%zu,%zu)\\n",i,s,e);return 1;} } } return 0; }
'''),
dict(id='p02_copy_tail_two_words',property='P02',needs='destination offset 0, source offset so that the tail of the last destination word straddles two source words',
 what='CopyBits drops the high part of the final partial word when its bits come from two source words after at least one full word',
 edits=[(ALG,'''    if (rhs_words == 2) {
      rhs_val |= rhs[1] << (bits_per_word - rhs_skip);''','''    if (rhs_words == 2 && full_lhs_words < 2) {
      rhs_val |= rhs[1] << (bits_per_word - rhs_skip);''')],
 demo='''#include "arolla/util/algorithms.h"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
int main(){ for(int n=0;n<140;++n) for(int ls=0;ls<32;++ls) for(int rs=0;rs<32;++rs){ size_t lw=(n+ls+31)/32,rw=(n+rs+31)/32; uint32_t*l=(uint32_t*)malloc(lw*4),*r=(uint32_t*)malloc(rw*4);
 for(size_t i=0;i<lw;++i)l[i]=0x5a5a1234u*(i+1); for(size_t i=0;i<rw;++i) r[i]=0x9e3779b9u*(i+3)^n; 
 bool w[200]; for(size_t i=0;i<lw*32;++i) w[i]=(i>=ls&&i<ls+n)?(r[(i-ls+rs)/32]>>((i-ls+rs)%32))&1:(l[i/32]>>(i%32))&1;
 arolla::CopyBits<uint32_t>(n,r,rs,l,ls); for(size_t i=0;i<lw*32;++i) if(((l[i/32]>>(i%32))&1)!=w[i]){printf("n %d ls %d rs %d bit %zu\\n",n,ls,rs,i);return 1;} free(l);free(r);} return 0; }
'''),
dict(id='p02_and_extra_word',property='P02',needs='lhs offset smaller than rhs offset with the rhs spanning exactly one more word than the lhs, at least three words',
 what='the in-place AND with offsets ignores the bits that come from the extra rhs word for the last lhs word',
 edits=[(ALG,'''    for (; i < rhs_words - 1; ++i) {
      lhs[i] &= (rhs[i] >> a) | (rhs[i + 1] << b);
    }
    if (i < lhs_words) {
      lhs[i] &= (rhs[i] >> a);
    }''','''    for (; i + 1 < lhs_words; ++i) {
      lhs[i] &= (rhs[i] >> a) | (rhs[i + 1] << b);
    }
    if (i < lhs_words) {
      lhs[i] &= (rhs[i] >> a);
    }''')],
 demo='''#include "arolla/util/algorithms.h"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
int main(){ for(int n=1;n<140;++n) for(int ls=0;ls<32;++ls) for(int rs=0;rs<32;++rs){ size_t lw=(n+ls+31)/32,rw=(n+rs+31)/32; uint32_t*l=(uint32_t*)malloc(lw*4),*r=(uint32_t*)malloc(rw*4);
 for(size_t i=0;i<lw;++i)l[i]=0xdeadbeefu*(i+1); for(size_t i=0;i<rw;++i) r[i]=0x9e3779b9u*(i+3)^n; 
 bool w[200]; for(size_t i=ls;i<ls+n;++i) w[i]=((r[(i-ls+rs)/32]>>((i-ls+rs)%32))&1)&((l[i/32]>>(i%32))&1);
 arolla::InplaceLogicalAndWithOffsets<uint32_t>(n,r,rs,l,ls); for(size_t i=ls;i<ls+n;++i) if(((l[i/32]>>(i%32))&1)!=w[i]){printf("n %d ls %d rs %d bit %zu\\n",n,ls,rs,i);return 1;} free(l);free(r);} return 0; }
'''),
dict(id='p03_all_bits_unset_mask',property='P03',needs='a trailing partial word in which only bits beyond the length are set, and a bit exactly at the boundary',
 what='AreAllBitsUnset looks at one bit beyond the length',
 edits=[(BM,'''         ((*bitmap >> suffixBitCount) << suffixBitCount) == *bitmap;''','''         (*bitmap & ((Word{2} << suffixBitCount) - 1)) == 0;''')],
 demo='''#include "arolla/dense_array/bitmap.h"
#include <cstdio>
int main(){ for(int n=1;n<64;++n) for(int b=0;b<64;++b){ uint32_t w[2]={0,0}; w[b/32]|=1u<<(b%32); if(arolla::bitmap::AreAllBitsUnset(w,n)!=(b>=n)){printf("n %d b %d\\n",n,b);return 1;} } return 0; }
''',srcs=['arolla/util/preallocated_buffers.cc']),
dict(id='p03_builder_carry',property='P03',needs='at least two adds where the second starts inside a word and its group is shorter than the rest of that word while a later word exists',
 what='the bitmap builder loses bits: an unaligned add only initialises the following word when the group does not fit, so the word after is left uninitialised and later ORed into',
 edits=[(BM,'''        if (word_id + 1 < data.size()) {
          data[word_id + 1] = w >> (kWordBitCount - bit_offset);
        }''','''        if (word_id + 1 < data.size() && (w >> (kWordBitCount - bit_offset))) {
          data[word_id + 1] = w >> (kWordBitCount - bit_offset);
        }''')],
 demo='''#include "arolla/dense_array/bitmap.h"
#include <cstdio>
#include <cstdlib>
#include <vector>
struct F final: arolla::RawBufferFactory { std::tuple<arolla::RawBufferPtr,void*> CreateRawBuffer(size_t n) override { void*p=malloc(n+1); memset(p,0xff,n); return {nullptr,p}; }
 std::tuple<arolla::RawBufferPtr,void*> ReallocRawBuffer(arolla::RawBufferPtr&&,void*,size_t,size_t) override { abort(); } };
int main(){ F f; for(int a=1;a<40;++a) for(int b=1;b<40;++b) for(int c=1;c<40;++c){ std::vector<bool> v; arolla::bitmap::Builder bl(a+b+c,&f); int s=a*7+b*3+c;
 for(int n:{a,b,c}){ std::vector<char> x; for(int i=0;i<n;++i){ x.push_back(n==a?1:0); v.push_back(x.back()); } (void)s; bl.AddForEach(x,[](char q){return q!=0;}); }
 auto bm=std::move(bl).Build(); for(int i=0;i<a+b+c;++i) if(arolla::bitmap::GetBit(bm,i)!=v[i]){printf("%d %d %d bit %d\\n",a,b,c,i);return 1;} } return 0; }
''',srcs=['arolla/util/preallocated_buffers.cc','arolla/memory/raw_buffer_factory.cc']),
]
