"""Conditional mutants: takes plain mutants which the checks catch and makes each
happen only under a rare condition (a long name, a certain type, a certain count),
so that what is measured is the reach of the workloads and not the oracles alone.

usage: cond.py MUTANTS.jsonl OUT.jsonl [RESULTS.jsonl ...]
(MUTANTS as mutate.py writes them, RESULTS as mutrun.py does: survivors are left out)"""
import json,random,re,sys
random.seed(7)
surv=set()
for f in sys.argv[3:]:
    for l in open(f):
        r=json.loads(l)
        if r['res']!='caught': surv.add(r['id'])
fnre=re.compile(r'^\s*(?:pub(?:\(\w+\))? )?(?:async )?fn (\w+)')
RARE={
 'verify_rrsig':['sig.alg == 10','sig.alg == 14','sig.orig_ttl == 0','sig.key_name.labels() >= 4','records.len() >= 5','sig.ty == TLSA::TYPE','sig.ty == DName::TYPE','records.len() == 2','sig.labels == 0','sig.inception > sig.expiration','sig.ty == NSec3::TYPE'],
 'verify_dnskeys':['records.len() >= 4','records.iter().any(|k| k.alg == 14)','records.len() == 1','records.iter().any(|k| k.name.labels() >= 3)','records.iter().any(|k| k.flags == 257)'],
 'nsec_ord':['a.len() > 60','b.starts_with("*.")','a.starts_with("*.")','a == "."','b.len() > a.len() + 20','a.contains("-")'],
 'labels_below_zone':['zone.len() > 40','name.starts_with("*.")','name.starts_with("_")','name == zone','zone.len() == 2'],
 'verify_rr_stream':['inp.len() > 40','inp.len() < 6','inp.iter().any(|r| r.ty() == DName::TYPE)','inp.iter().any(|r| r.ty() == NSec3::TYPE)','inp.iter().any(|r| r.name().labels() > 6)','inp.iter().filter(|r| r.ty() == DS::TYPE).count() > 4','inp.iter().any(|r| r.name().starts_with("*."))'],
 'resolve_name':['name_param.labels() >= 6','self.verified_rrs.len() > 8','name_param.starts_with("*.")','name_param.as_str() == "."','self.verified_rrs.len() == 2','name_param.len() > 100'],
 'handle_response':['resp.len() > 2048','resp.len() % 64 == 0','resp[7] > 6','resp.len() > 30000'],
 'process_response':['self.queries_made == 7','self.proof.is_empty()','resp.len() > 2048','self.dnskeys_requested.len() == 2','self.min_ttl == 0'],
 'extend_from_slice':['sl.is_empty()','self.len > 60000','sl.len() > 2048','self.len == 2048'],
 'do_read_wire_packet_labels':['name.len() > 120','recursion_limit < 250','wire_packet.len() > 1000','name.is_empty() && recursion_limit < 255'],
 'parse_wire_packet_rr':['inp.len() > 4000','wire_packet.is_empty()','wire_packet.len() > 2048'],
 'read_nsec_types_bitmap':['inp.len() > 200','inp.len() == 3'],
 'write_nsec_types_bitmap':['types[8191] != 0','types[31] != 0','types[0] == 0'],
 'nsec_types_bitmap_len':['types[8191] != 0','types[31] != 0','types[0] == 0'],
 'write_name':['name.len() > 200','name.starts_with("*.")','name.contains("\\\\")'],
 'name_len':['name.len() > 200','name.starts_with("*.")'],
 'trailing_n_labels':['n > 20','self.0.starts_with("*.")','n == 1'],
 'try_from':['s.len() > 250','s.starts_with("*")','s.contains("\\\\")'],
 'key_tag':['self.pubkey.len() % 2 == 1','self.pubkey.len() > 500','self.flags == 256'],
 'decode_data':['data.len() > 32','data.len() < 8'],
 'decode':['data.len() > 32','data.len() < 8'],
 'bytes_to_rsa_pk':['pubkey.len() > 300','pubkey[0] == 1','pubkey[0] == 0'],
 'build_query':['domain.len() > 100','domain.starts_with("*.")','ty == 28','domain.as_str() == "."'],
 'resolve_time':['time > 0xf000_0000','time == 0'],
 'awaiting_responses':['self.queries_made == 10','self.dnskeys_requested.len() == 1'],
 'finish_proof':['self.queries_made == 10','self.min_ttl == 0'],
 'write_json':['self.0[8191] != 0','self.0[0] == 0'],
 'contains_type':['ty > 60000','ty == 255'],
 'cmp':['self.name.starts_with("*.")','self.name.len() > 100'],
 'write_u16_len_prefixed_data':['out.len() > 20000','self.name().starts_with("*.")','self.name().len() > 100'],
 'read_from_data':['data.len() > 1000','data.len() == 4','name.starts_with("*.")','name.len() > 100'],
 'json':['self.name().starts_with("*.")','self.name().contains("\\\\")'],
}
out=[]; src={}
for m in [json.loads(l) for l in open(sys.argv[1])]:
    if m['id'] in surv or m['file'] in ('src/http.rs','wasmpack/src/lib.rs') or 'crypto' in m['file']: continue
    if m['file'] not in src: src[m['file']]=open('/repo/'+m['file']).read().split('\n')
    L=src[m['file']]
    fn=None
    for i in range(m['line']-1,-1,-1):
        g=fnre.match(L[i])
        if g and i<m['line']-1: fn=g.group(1); break
    if fn not in RARE: continue
    o,n=m['old'].strip(),m['new'].strip()
    made=None
    a=re.match(r'^(\} else )?if (?!let)(.*) \{(.*)$',o); b=re.match(r'^(\} else )?if (?!let)(.*) \{(.*)$',n)
    if a and b and a.group(1)==b.group(1) and a.group(3)==b.group(3) and '{' not in a.group(2):
        made=lambda r: '%sif (if %s { %s } else { %s }) {%s'%(a.group(1) or '',r,b.group(2),a.group(2),a.group(3))
    else:
        a=re.match(r'^(let (?:mut )?\w+ = )([^{}]*);(.*)$',o); b=re.match(r'^(let (?:mut )?\w+ = )([^{}]*);(.*)$',n)
        if a and b and a.group(1)==b.group(1):
            made=lambda r: '%sif %s { %s } else { %s };'%(a.group(1),r,b.group(2),a.group(2))
        elif re.match(r'^[^{}]*;\s*(//.*)?$',o) and not o.startswith(('let ','const ','use ')) and (n=='' or re.match(r'^[^{}]*;',n)):
            made=lambda r: 'if %s { %s } else { %s }'%(r,re.sub(r';\s*//.*$',';',n),re.sub(r';\s*//.*$',';',o))
    if not made: continue
    rs=RARE[fn][:]; random.shuffle(rs)
    for k,r in enumerate(rs[:3]):
        out.append({'id':m['id']+'c%d'%k,'file':m['file'],'line':m['line'],'old':m['old'],'new':'\t'*(len(m['old'])-len(m['old'].lstrip('\t')))+made(r)})
random.shuffle(out)
print(len(out))
open(sys.argv[2],'w').write('\n'.join(json.dumps(x) for x in out)+'\n')
import collections; print(collections.Counter(x['file'] for x in out))
