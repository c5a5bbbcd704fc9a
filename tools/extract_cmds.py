#!/usr/bin/env python3
"""One-off tool, like extract_spec.py: writes sim/src/gen_cmd.rs (how to fill every command from plain
values) and the frozen table of configuration keys. The checks never run it."""
import json,re
S=json.load(open('/verif/sim/spec/packets.json'))
src=re.sub(r'//[^\n]*','',open('/repo/ublox/src/ubx_packets/packets.rs').read())
enums=dict(S['enums'])
for m in re.finditer(r'pub enum (ResetMode|AlignmentToReferenceTime|CfgItfmAntennaSettings) \{(.*?)\}',src,re.S):
    n,b=m.groups(); b=re.sub(r'#\[[^\]]*\]','',b)
    enums[n]=dict(vals=[(v,int(x,0)) for v,x in re.findall(r'(\w+)\s*=\s*(0x[0-9a-fA-F]+|\d+)',b)])
flags=S['flags']
o=['// FROZEN output of tools/extract_cmds.py: filling the command builders from plain values.',
   'use crate::cmd::{bytes_of, flt, itfm, itfm2, num, uart_mode, V};','use ublox::cfg_val::CfgVal;','use ublox::*;','']
cmds=[n for n,p in S['packets'].items() if p['kind']!='ubx_packet_recv' and n!='CfgValSet']
INT={'u8','i8','u16','i16','u32','i32'}
for n,e in enums.items():
    if n in ('ResetMode','AlignmentToReferenceTime','CfgItfmAntennaSettings') or any(f.get('map')==n for c in cmds for f in S['packets'][c]['fields']):
        o.append(f'pub fn en_{n}(x: i64) -> {n} {{\n    match x {{')
        for v,k in e['vals'][1:]: o.append(f'        {k} => {n}::{v},')
        o.append(f'        _ => {n}::{e["vals"][0][0]},\n    }}\n}}')
# set flags by name, as a user does; only the unnamed bits go in as bits
named={}
for fn in ('packets.rs','cfg_val.rs','types.rs'):
    text=re.sub(r'//[^\n]*','',open('/repo/ublox/src/ubx_packets/'+fn).read())
    for m in re.finditer(r'bitflags!\s*\{(.*?)\n\}',text,re.S):
        h=re.search(r'pub struct (\w+)\s*:\s*(\w+)',m.group(1))
        named[h.group(1)]=(h.group(2),[(n,eval(x,{})) for n,x in re.findall(r'const (\w+)\s*=\s*([^;]+);',m.group(1))])
for n in sorted({f['map'] for c in cmds for f in S['packets'][c]['fields'] if f.get('map') in flags}|{'CfgInfMask','CfgLayer'}):
    ty,cs=named[n]
    o.append(f'pub fn fl_{n}(x: {ty}) -> {n} {{\n    let mut rest = x;\n    let mut set = {n}::empty();')
    o.append(f'    for (f, bits) in [{", ".join(f"({n}::{c}, {hex(b)})" for c,b in cs)}] {{\n        if x & bits == bits {{\n            set |= f;\n            rest &= !bits;\n        }}\n    }}')
    o.append(f'    set | {n}::from_bits_truncate(rest)\n}}')
def acc(f): return f.get('alias') or f['name']
for c in cmds:
    p=S['packets'][c]
    if not p['fields']: continue
    fs=[]; ss=[]
    for f in p['fields']:
        m=f.get('map'); a=acc(f)
        if m in('f32','f64'): e=f'flt(v) as {m}'
        elif m=='CfgItfmConfig': e='itfm(num(v))'
        elif m=='CfgItfmConfig2': e='itfm2(num(v))'
        elif m=='UartMode': e='uart_mode(num(v))'
        elif m in enums: e=f'en_{m}(num(v))'
        elif m in flags: e=f'fl_{m}(num(v) as {flags[m]["ty"]})'
        elif m: raise SystemExit((c,f))
        elif f['ty']=='bytes': e='bytes_of(v)'
        else: e=f'num(v) as {f["ty"]}'
        fs.append((a,e))
    o.append(f'pub fn new_{c}(get: &dyn Fn(&str) -> Option<V>) -> {c}Builder {{\n    {c}Builder {{')
    for a,e in fs:
        o.append(f'        {a}: {{ let v = &get("{a}"); {e} }},')
    o.append('    }\n}')
    o.append(f'pub fn set_{c}(b: &mut {c}Builder, f: &str, x: &V) {{\n    let v = &Some(x.clone());\n    match f {{')
    for a,e in fs: o.append(f'        "{a}" => b.{a} = {e},')
    o.append('        _ => {},\n    }\n}')
    if p['kind']=='ubx_packet_recv_send':
        o.append(f'pub fn copy_{c}(r: &{c}Ref<\'_>) -> {c}Builder {{\n    {c}Builder {{')
        for f in p['fields']:
            a=acc(f)
            if f['ty']=='bytes': o.append(f'        {a}: [0; {f["size"]}],')
            else: o.append(f'        {a}: r.{a}(),')
        o.append('    }\n}')
for c in cmds:
    o.append(f'impl crate::cmd::ToArr for {c}Builder {{\n    fn arr(self) -> Vec<u8> {{\n        let a: [u8; {c}Builder::PACKET_LEN] = self.into();\n        a.to_vec()\n    }}\n}}')
o.append('/// `$b` is the finished builder of command `$k`.')
o.append('#[macro_export]\nmacro_rules! with_builder {\n    ($k:expr, $get:expr, $b:ident => $e:expr, $none:expr) => {\n        match $k {')
for c in cmds:
    if S['packets'][c]['fields']: o.append(f'            "{c}" => {{ let $b = $crate::gen_cmd::new_{c}($get); $e }},')
    else: o.append(f'            "{c}" => {{ let $b = ublox::{c}Builder {{}}; $e }},')
o.append('            _ => $none,\n        }\n    };\n}')
o.append('/// Read, copy, change: for every message that can be both read and set.')
o.append('#[macro_export]\nmacro_rules! with_config {\n    ($p:expr, $f:expr, $x:expr, $b:ident => $e:expr, $none:expr) => {\n        match $p {')
for c in cmds:
    if S['packets'][c]['kind']=='ubx_packet_recv_send' and c in S['order']:
        o.append(f'            ublox::PacketRef::{c}(r) => {{ #[allow(unused_mut)] let mut $b = $crate::gen_cmd::copy_{c}(r); if let Some(x) = $x {{ $crate::gen_cmd::set_{c}(&mut $b, $f, x); }} $e }},')
o.append('            _ => $none,\n        }\n    };\n}')
names=[n for n in S['packets'] if n not in('NavSatSvInfo','RxmRawxInfo')]
o.append('/// `$t` is the type of the message called `$k`.')
o.append('#[macro_export]\nmacro_rules! with_meta {\n    ($k:expr, $t:ident => $e:expr, $none:expr) => {\n        match $k {')
for n in names: o.append(f'            "{n}" => {{ type $t = ublox::{n}{"<" + chr(39) + "static>" if False else ""}; $e }},')
o.append('            _ => $none,\n        }\n    };\n}')
o.append('pub const META: &[&str] = &['+', '.join(f'"{n}"' for n in names)+'];')
o.append('pub const COMMANDS: &[&str] = &['+', '.join(f'"{n}"' for n in cmds)+'];')
o.append('pub const CONFIGS: &[&str] = &['+', '.join(f'"{n}"' for n in cmds if S['packets'][n]['kind']=='ubx_packet_recv_send' and n in S['order'])+'];')
# configuration keys
cv=open('/repo/ublox/src/ubx_packets/cfg_val.rs').read()
L=re.findall(r'^\s*(\w+),\s*(0x[0-9a-fA-F_]+),\s*(\w+)\s*[,;]?\s*$',cv,re.M)
o.append(f'/// Key and kind of value of every configuration item.\npub const KEYS: &[(u32, &str)] = &[')
for n,k,t in L: o.append(f'    ({k}, "{t}"),')
o.append('];')
o.append('pub fn cv_make(key: u32, raw: u64) -> Option<CfgVal> {\n    Some(match key {')
M={'bool':'raw & 1 == 1','u8':'raw as u8','u16':'raw as u16','i16':'raw as u16 as i16','u32':'raw as u32','u64':'raw',
 'CfgInfMask':'fl_CfgInfMask(raw as u8)',
 'DataBits':'if raw & 1 == 0 { DataBits::Eight } else { DataBits::Seven }',
 'Parity':'match raw % 3 { 0 => Parity::None, 1 => Parity::Odd, _ => Parity::Even }',
 'StopBits':'match raw & 3 { 0 => StopBits::Half, 1 => StopBits::One, 2 => StopBits::OneHalf, _ => StopBits::Two }',
 'AlignmentToReferenceTime':'en_AlignmentToReferenceTime((raw % 5) as i64)',
 'TpPulse':'if raw & 1 == 0 { cfg_val::TpPulse::Period } else { cfg_val::TpPulse::Freq }',
 'TpPulseLength':'if raw & 1 == 0 { cfg_val::TpPulseLength::Ratio } else { cfg_val::TpPulseLength::Length }'}
for n,k,t in L: o.append(f'        {k} => CfgVal::{n}({M[t]}),')
o.append('        _ => return None,\n    })\n}')
R={'bool':'*x as u64','u8':'u64::from(*x)','u16':'u64::from(*x)','i16':'u64::from(*x as u16)','u32':'u64::from(*x)','u64':'*x',
 'CfgInfMask':'u64::from(x.bits())',
 'DataBits':'match x { DataBits::Eight => 0, DataBits::Seven => 1 }',
 'Parity':'match x { Parity::None => 0, Parity::Odd => 1, Parity::Even => 2 }',
 'StopBits':'match x { StopBits::Half => 0, StopBits::One => 1, StopBits::OneHalf => 2, StopBits::Two => 3 }',
 'AlignmentToReferenceTime':'align(x)',
 'TpPulse':'match x { cfg_val::TpPulse::Period => 0, cfg_val::TpPulse::Freq => 1 }',
 'TpPulseLength':'match x { cfg_val::TpPulseLength::Ratio => 0, cfg_val::TpPulseLength::Length => 1 }'}
o.append('fn align(x: &AlignmentToReferenceTime) -> u64 {\n    match x {')
for v,k in enums['AlignmentToReferenceTime']['vals']: o.append(f'        AlignmentToReferenceTime::{v} => {k},')
o.append('    }\n}')
o.append('pub fn cv_read(v: &CfgVal) -> (u32, u64) {\n    match v {')
for n,k,t in L: o.append(f'        CfgVal::{n}(x) => ({k}, {R[t]}),')
o.append('        _ => (0, 0),\n    }\n}')
L="CfgOdo CfgInf AidIni CfgTp5 CfgTmode2 CfgTmode3 CfgPrtI2c CfgPrtSpi CfgNav5 CfgNavX5".split()
o+=['','/// Commands whose builder may start from defaults.','pub const DEFAULTED: &[&str] = &['+', '.join(f'"{n}"' for n in L)+'];',
'/// Fields whose default is not zero.',
'pub const DEFAULTS: &[(&str, &str, i64)] = &[("CfgNav5", "dyn_model", 8), ("CfgNav5", "fix_mode", 3), ("CfgPrtSpi", "portid", 4)];',
'/// `$b` is the default builder of command `$k` with some fields set.',
'#[macro_export]\nmacro_rules! with_default {\n    ($k:expr, $v:expr, $b:ident => $e:expr, $none:expr) => {\n        match $k {']
for n in L:
    o.append(f'            "{n}" => {{ let mut $b = ublox::{n}Builder::default(); for (f, x) in $v {{ if let Some(x) = x {{ $crate::gen_cmd::set_{n}(&mut $b, f, x); }} }} $e }},')
o.append('            _ => $none,\n        }\n    };\n}')
open('/verif/sim/src/gen_cmd.rs','w').write('\n'.join(o)+'\n')
# enums needed by the reference encoder
S['enums']['ResetMode']={'reserved':False,'vals':enums['ResetMode']['vals']}
S['enums']['AlignmentToReferenceTime']={'reserved':False,'vals':enums['AlignmentToReferenceTime']['vals']}
json.dump(S['enums'],open('/tmp/enums.json','w'))
