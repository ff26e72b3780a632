"""Property catalogue: source of properties.jsonl and of MANIFEST.json (python3 lib/catalog.py rewrites both)."""
import json,os,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
U='modules/utils/include/litiv/utils/'
CAT=[]
def P(id,title,statement,over,qtext,why,files,mech,note=None,na=None,tech=None,**k):
    CAT.append(dict(id=id,title=title,statement=statement,over=over,qtext=qtext,why=why,files=files,mech=mech,note=note,na=na,tech=tech,k=k))
TECH='bounded symbolic execution of the LLVM IR compiled from the current sources, every assertion decided by z3 (bit-vectors, arrays, IEEE floats) over all symbolic inputs; counterexamples replayed natively'
P('C01','Distances equal their definition for every type, channel count and mask',
 'L1, squared-L2, L2, Hamming and colour-distortion distances return exactly the mathematical value for every pair of inputs: no overflow, wrap-around or sign error in any supported integer or floating-point type, for one to four channels, for single elements and arrays, and with masked-out elements contributing nothing. Unsupported run-time channel counts are rejected rather than computed.',
 ['inputs'],'all element values of each type, all masks, 1-4 channels, arrays up to the stated length','the tests compare a few hundred random arrays; overflow needs extreme pairs in one specific overload',
 [U+'math.hpp'],[dict(name='L1dist/L2sqrdist/L2dist/hdist/cdist',where=U+'math.hpp')],
 note='all values; arrays of at most 2-4 elements; colour distortion within one unit of the exact integer formula')
P('C02','SIMD and bit helpers agree with their scalar definitions on all operands',
 'Every vector helper (comparisons, horizontal sum/min/max, block copy/fill, byte unpacking, lane multiplication) returns, lane by lane, what its scalar definition gives, for all operands. Bit-field expansion and extension, power-of-two tests, digit counts and the fast pseudo-random generators likewise equal their scalar definitions for all operands and generator states.',
 ['inputs','histories'],'all operand values; 2-3 consecutive generator draws','tests draw random lanes; sign-bit and carry cases of a single lane are missed',
 [U+'simd.hpp',U+'math.hpp',U+'cxx.hpp'],[dict(name='cmp/hsum/hmin/hmax/mult/unpack/store helpers',where=U+'simd.hpp'),dict(name='expand_bits, extend_bits, ispow2, digit_count, fast_rand generators',where=U+'math.hpp')],
 note='all operand values; 0-4 blocks for block copies; digit counts below 100000')
P('C03','Auto-allocated buffers behave as vectors under every history of operations',
 'After any sequence of construction, push, resize, reserve, clear, copy, move and assignment (including self-move and pushing an own element), a small-buffer container holds exactly the elements an ordinary vector would hold, its storage is aligned, copies are independent, and checked access throws exactly for indices outside the current size. Lookup tables sample their function at the bins, repeat end values in the safety bins, and every in-domain lookup returns the bin at (or nearest to) the argument without reading outside the table.',
 ['histories','inputs'],'every sequence of 4 operations (5 in the thorough tier), all element values and indices','tests run one scripted sequence',
 [U+'cxx.hpp'],[dict(name='AutoBuffer, AlignedMemAllocator, LUT',where=U+'cxx.hpp')],note='sequences of 4-5 operations, buffers up to 8 elements, tables of 5-9 bins')
P('C05','Generic array, numeric and string algorithms return what they document',
 'Sorting and unique indices (permutation, sorted, first occurrences), nearest-neighbour search, linear interpolation, ranges and linear spaces, filtering, concatenation, index lookup, cumulative and member sums, determinants, string clamping, case-insensitive comparison, token search and formatted printing return exactly the documented result for every input array or string. Requests outside the documented domain are rejected, never answered with another value.',
 ['inputs'],'all element values for arrays of up to 3-5 elements; strings up to 4 characters; texts around the formatting buffer size','tests use a handful of hand-written arrays',
 [U+'cxx.hpp',U+'math.hpp','modules/utils/src/cxx.cpp'],[dict(name='sort_indices, unique_indices, find_nn_index, interp1, make_range, linspace, filter_*, concat, indices_of, cumulativeSum, putf, clampString',where=U+'cxx.hpp'),dict(name='determinant, invert',where=U+'math.hpp')],note='arrays of at most 3-5 elements')
try:
    from catalog2 import more; more(P,U)
except ImportError: pass
def main():
    CAT.sort(key=lambda c:c['id'])
    with open(V+'/properties.jsonl','w') as f:
        for c in CAT:
            a=dict(files=c['files'],mechanism=c['mech']); a.update({k:v for k,v in c['k'].items() if k in('state','observe_at','hook_needed')})
            f.write(json.dumps(dict(id=c['id'],title=c['title'],statement=c['statement'],quantifier=dict(over=c['over'],text=c['qtext']),why_tests_cant=c['why'],anchors=a))+'\n')
    m=dict(version=1,setup_cmd='python3 lvcheck.py --setup',hooks=dict(guard='LITIV_VERIF_CACHE_MIN_SIZE',enable='-DLITIV_VERIF_CACHE_MIN_SIZE=4 on the compiler command line (C14, C20): packet caches of a few bytes instead of at least 10 MB',source_commits=['6e72933']),checks=[],not_applicable=[],notes='See DESIGN.md. Known findings and repaired defects: known_findings.json.')
    for c in CAT:
        if c['na']: m['not_applicable'].append(dict(property=c['id'],reason=c['na'])); continue
        m['checks'].append(dict(property=c['id'],quick_cmd='python3 lvcheck.py %s --tier quick'%c['id'],thorough_cmd='python3 lvcheck.py %s --tier thorough'%c['id'],evidence_file='evidence/%s.json'%c['id'],technique=c['tech'] or TECH,level=c['k'].get('level','other'),level_note='Bounded: '+(c['note'] or '')+'. Nothing is claimed outside the bounds listed per entry in the evidence file.'))
    json.dump(m,open(V+'/MANIFEST.json','w'),indent=1); open(V+'/MANIFEST.json','a').write('\n')
if __name__=='__main__': main()
