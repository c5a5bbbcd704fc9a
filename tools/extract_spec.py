#!/usr/bin/env python3
"""One-off tool: transcribes the message descriptions of ublox/src/ubx_packets/packets.rs into
/verif/sim/spec/packets.json and the accessor lists into /verif/sim/src/gen_acc.rs.
The outputs are FROZEN and committed: the checks never run this script, so that a later change of a
description in /repo shows up as a disagreement with the frozen table. Entries found to be wrong
against the u-blox protocol description are corrected below (CORRECTIONS)."""
import re,json,sys
src=re.sub(r'//[^\n]*','',open('/repo/ublox/src/ubx_packets/packets.rs').read())
CORRECTIONS={('NavVelECEF','ecef_vz'):{'ty':'i32'}}
SZ={'u8':1,'i8':1,'u16':2,'i16':2,'u32':4,'i32':4,'f32':4,'f64':8,'u64':8}
recv=re.search(r'define_recv_packets!\(\s*enum PacketRef \{(.*?)\}',src,re.S).group(1)
order=[x.strip() for x in recv.split(',') if x.strip() and '=' not in x]
order=[o for o in order]
pk={}
for m in re.finditer(r'#\[(ubx_packet_recv|ubx_packet_recv_send|ubx_packet_send)\]\s*#\[ubx\((.*?)\)\]\s*(?:#\[derive\(Debug\)\]\s*)?(?:pub )?struct (\w+)(?:<\'a>)? \{(.*?)\}\n',src,re.S):
    kind,attr,name,body=m.groups()
    attr=re.sub(r'//.*','',attr)
    g=lambda k:(re.search(k+r'\s*=\s*(0x[0-9a-fA-F]+|\d+)',attr))
    cls=int(g('class').group(1),0); mid=int(re.search(r'\bid\s*=\s*(0x[0-9a-fA-F]+|\d+)',attr).group(1),0)
    fx=g('fixed_payload_len'); mx=g('max_payload_len')
    body=re.sub(r'//[^\n]*','',body)
    fields=[]; off=0
    # split on fields
    for fm in re.finditer(r'((?:#\[ubx\((?:[^()]|\([^()]*\))*\)\]\s*)?)(?:pub )?(\w+)\s*:\s*(\[u8; ?\d+\]|&\'a \[\w+\]|\w+)\s*(?:,|$)',body.strip()+','):
        a,fname,ty=fm.groups()
        def at(k):
            r=re.search(k+r'\s*=\s*([^,\)]+)',a); return r.group(1).strip() if r else None
        am=re.match(r'\[u8; ?(\d+)\]',ty)
        size=int(am.group(1)) if am else SZ.get(ty,0)
        f=dict(name=fname,ty='bytes' if am else ty,size=size,off=off)
        mt=at('map_type')
        if mt: f['map']=mt
        if at('scale'): f['scale']=float(at('scale'))
        if at('alias'): f['alias']=at('alias')
        if 'may_fail' in a: f['may_fail']=True
        if (name,fname) in CORRECTIONS: f.update(CORRECTIONS[(name,fname)])
        off+=size; fields.append(f)
    pk[name]=dict(name=name,kind=kind,cls=cls,id=mid,fixed=int(fx.group(1)) if fx else None,max=int(mx.group(1)) if mx else None,size=off,fields=fields)
for o in order: assert o in pk,o
enums={}
for m in re.finditer(r'#\[ubx_extend\]\s*#\[ubx\(([^)]*)\)\]\s*#\[repr\(u8\)\]\s*(?:#\[[^\]]*\]\s*)*(?:pub )?enum (\w+) \{(.*?)\}',src,re.S):
    a,n,b=m.groups(); b=re.sub(r'//[^\n]*','',b); b=re.sub(r'#\[[^\]]*\]','',b)
    enums[n]=dict(reserved='rest_reserved' in a,vals=[(v,int(x,0)) for v,x in re.findall(r'(\w+)\s*=\s*(0x[0-9a-fA-F]+|\d+)',b)])
flags={}
for m in re.finditer(r'#\[ubx_extend_bitflags\]\s*#\[ubx\(([^)]*)\)\]\s*bitflags! \{(.*?)\n\}',src,re.S):
    a,b=m.groups(); b=re.sub(r'//[^\n]*','',b)
    n,ty=re.search(r'struct (\w+)\s*:\s*(\w+)',b).groups()
    flags[n]=dict(ty=ty,consts=[(c,int(x,0)) for c,x in re.findall(r'const (\w+)\s*=\s*(0x[0-9a-fA-F]+|0b[01]+|\d+)',b)])
out=dict(order=order,packets=pk,enums=enums,flags=flags)
json.dump(out,open('/verif/sim/spec/packets.json','w'),indent=1)
# ---- generated accessor code
o=['// FROZEN output of tools/extract_spec.py: every public accessor of every received message.',
   '// Values go through `ToVal`, so a change of an accessor\'s type is a disagreement, not a build failure.',
   'use crate::val::{list, ToVal, Val};','use ublox::*;','']
CUST={'NavSatIter','RxmRawxInfoIter','MonVerExtensionIter','EsfMeasDataIter','EsfRawDataIter','DwrdIter'}
def accname(f): return f.get('alias') or f['name']
for n in order+['NavSatSvInfo','RxmRawxInfo']:
    p=pk[n]
    if n=='MgaGpsEPH': pass
    o.append(f'pub fn acc_{n}(p: &{n}Ref<\'_>) -> Vec<(&\'static str, Val)> {{')
    o.append('    vec![')
    for f in p['fields']:
        an=accname(f); m=f.get('map')
        if m in CUST:
            if m=='NavSatIter': e=f'list(|| p.{an}(), |x| Val::Map(acc_NavSatSvInfo(&x)))'
            elif m=='RxmRawxInfoIter': e=f'list(|| p.{an}(), |x| Val::Map(acc_RxmRawxInfo(&x)))'
            else: e=f'list(|| p.{an}(), |x| x.to_val())'
            o.append(f'        ("{an}", {e}),')
        elif m in flags:
            o.append(f'        ("{an}", (p.{an}().bits()).to_val()),')
            o.append(f'        ("{an}#flags", Val::FlagSet(vec![{", ".join("p."+an+"().contains("+m+"::"+c+")" for c,_ in flags[m]["consts"])}])),')
        elif m in enums:
            o.append(f'        ("{an}", Val::Name(format!("{{:?}}", p.{an}()))),')
        else:
            o.append(f'        ("{an}", p.{an}().to_val()),')
        if m and f['size']: o.append(f'        ("{an}_raw", p.{an}_raw().to_val()),')
    o.append('    ]'); o.append('}'); o.append('')
o.append('/// Name of the variant, the payload it exposes, and all accessor values.')
o.append('pub fn acc_packet(p: &PacketRef<\'_>, out: &mut crate::val::Decoded) {')
o.append('    match p {')
for n in order: o.append(f'        PacketRef::{n}(x) => out.set("{n}", x.as_bytes(), acc_{n}(x)),')
o.append('        PacketRef::Unknown(x) => out.set_unknown(x.class, x.msg_id, x.payload),\n        #[allow(unreachable_patterns)]\n        _ => {},')
o.append('    }'); o.append('}'); o.append('')
o.append('pub fn variant_name(p: &PacketRef<\'_>) -> &\'static str {'); o.append('    match p {')
for n in order: o.append(f'        PacketRef::{n}(_) => "{n}",')
o.append('        PacketRef::Unknown(_) => "Unknown",\n        #[allow(unreachable_patterns)]\n        _ => "a type not in the frozen table",'); o.append('    }'); o.append('}'); o.append('')
o.append('pub fn packet_payload<\'a>(p: &\'a PacketRef<\'_>) -> &\'a [u8] {'); o.append('    match p {')
for n in order: o.append(f'        PacketRef::{n}(x) => x.as_bytes(),')
o.append('        PacketRef::Unknown(x) => x.payload,\n        #[allow(unreachable_patterns)]\n        _ => &[],'); o.append('    }'); o.append('}')
o.append('/// The message in serialised form by itself, not as one of the messages there are.')
o.append('#[cfg(not(feature = "lite"))]')
o.append('pub fn json_alone(p: &PacketRef<\'_>) -> Result<serde_json::Value, serde_json::Error> {\n    match p {')
for n in order: o.append(f'        PacketRef::{n}(x) => serde_json::to_value(x),')
o.append('        PacketRef::Unknown(x) => serde_json::to_value(x),\n        #[allow(unreachable_patterns)]\n        _ => Ok(serde_json::Value::Null),\n    }\n}')
open('/verif/sim/src/gen_acc.rs','w').write('\n'.join(o)+'\n')
print(len(pk),len(order),len(enums),len(flags)); 
for n,p in pk.items():
    if p['fixed'] is not None and p['fixed']!=p['size']: print('SIZE MISMATCH',n,p['fixed'],p['size'])
    if not p['fields'] : print('nofields',n)
print(sorted({f.get('map') for p in pk.values() for f in p['fields'] if f.get('map')} - set(enums)-set(flags)-CUST))
