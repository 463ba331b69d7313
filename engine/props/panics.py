"""C01-C03: no reachable panic"""
from ..core import *

SKIP_TRAITS = ('std::fmt::', 'bitflags::', 'snafu::', 'std::error::', 'std::iter::', 'std::ops::', 'std::default::', 'std::str::')


def skip(f):
    return f['key'] is None or f.get('derived') or '::_::' in f['path'] or (f.get('trait') or '').startswith(SKIP_TRAITS)


def is_decoder(eng, f):
    last = f['path'].split('::')[-1]
    if last in ('from_packet', 'from_bytes', 'from_cemi', 'parse_response', 'temp_from_bytes'):
        return True
    for t in f['inputs']:
        s = eng.T[t]['s']
        if 'Cursor<' in s or s in ('&[u8]', 'std::vec::Vec<u8>') and 'self' not in f and eng.T[f['output']]['s'].startswith('std::result::Result'):
            return True
    if f.get('trait') == 'std::convert::TryFrom' and f.get('trait_args'):
        if eng.T[f['trait_args'][0]]['k'] == 'int':
            return True
    return False


def roots(a, want):
    eng = a.eng
    out = []
    for f in eng.fns:
        if skip(f) or not f['pub'] or f.get('async'):
            continue
        if is_decoder(eng, f) == want:
            out.append(f)
    return out


def judge(a, f, r):
    for k, v in sorted(r.alarms.items()):
        a.ob(False, 'panic in %s: %s %s' % (short(v['fn']), v['kind'], v['desc']),
             'reached from %s at %s when %s' % (short(f['path']), v['span'], v['cond']))
    for k, v in sorted(r.undecided.items()):
        a.ob(None, '%s: %s %s' % (short(v['fn']), v['kind'], v['desc']), 'from %s at %s (%s)' % (short(f['path']), v['span'], v['cond']))
    if r.budget:
        a.ob(None, 'budget ' + f['path'], r.budget)
    if not (r.alarms or r.undecided or r.budget):
        a.ob(True, f['path'])
    a.count('roots')
    a.count('paths', len(r.outs))
    a.count('block_executions', r.steps)
    a.sample('%s: %d partitions, %d block executions, %d alarms' % (short(f['path']), len(r.outs), r.steps, len(r.alarms)))


def sync(a, want, floor, must):
    rs = roots(a, want)
    names = {f['path'].replace('knx_ip_client::', '') for f in rs}
    for m in must:
        if not any(n.endswith(m) for n in names):
            a.violation('missing anchor: ' + m, 'public function is gone')
    if len(rs) < floor:
        a.violation('too few roots', '%d public functions found, at least %d expected' % (len(rs), floor))
    for f in rs:
        judge(a, f, a.run(f))
    a.count('panic_sites', len(a.eng.asserts))


def c01(a):
    sync(a, True, 30, ['KnxNetIpHeader::from_packet', 'ConnectionResponse::from_packet', 'SearchResponse::from_packet', 'DIB::from_packet',
                       'TunnelingRequest::from_packet', 'TunnelingAck::from_packet', 'FeatureResp::from_packet', 'CEMI::from_packet',
                       'LDataCon::from_cemi', 'LDataInd::from_cemi', 'parse_response', 'HPAI::from_packet'])


def c02(a):
    sync(a, False, 60, ['APDU::packet', 'LDataReqMessage::packet', 'KnxAddress::to_u16', 'TunnelingRequest::packet', 'SearchResponse::packet'])
