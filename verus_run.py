"""Unbounded loops: functions extracted mechanically from /repo and verified by Verus.

A unit names the functions of one source file.  Their text is taken from the
current tree unchanged; what is added is the specification: the clause of each
function before its body, the invariant of its k-th loop, ghost assertions at
the head of a loop body and after a loop.  Nothing of the executable text is
dropped or rewritten (`-> T {` becomes `-> (r: T) ensures .. {`, `for x in e {`
becomes `for x in it: e invariant .. {`).
"""
import os, re, subprocess, time


def brace(t, i):
    """index after the brace that closes the one at `i` (strings, chars and comments skipped)"""
    d = 0
    while i < len(t):
        c = t[i]
        if t.startswith('//', i):
            i = t.index('\n', i)
        elif t.startswith('/*', i):
            i = t.index('*/', i) + 1
        elif c == '"':
            i += 1
            while t[i] != '"':
                i += 2 if t[i] == '\\' else 1
        elif c == "'":
            m = re.match(r"'(\\.[^']*|[^\\'])'", t[i:])
            if m:
                i += m.end() - 1
        elif c == '{':
            d += 1
        elif c == '}':
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    raise ValueError('unbalanced')


def extract(src, name, after=None):
    o = 0
    if after:
        o = src.find(after)
        if o < 0:
            raise ValueError('no %s' % after)
    m = re.compile(r'^[ \t]*(?:pub(?:\([a-z]+\))?\s+)?(?:const\s+)?(?:unsafe\s+)?fn\s+%s\b' % name, re.M).search(src, o)
    if not m:
        raise ValueError('no function %s' % name)
    b = src.index('{', m.start())
    return src[m.start():b], src[b:brace(src, b)]


def annotate(head, body, spec):
    for a, b in spec.get('subs', []):
        body = re.sub(a, b, body)
    m = re.search(r'->\s*(.*\S)\s*$', head, re.S)
    if m:
        head = head[:m.start()] + '-> (r: %s)\n' % m.group(1)
    if spec.get('requires'):
        head += '    requires %s\n' % spec['requires']
    head += '    ensures %s\n' % spec['ensures']
    out, i, k = '', 0, 0
    for m in re.finditer(r'\b(for\s+([^;{}]+?)\s+in\s+([^{;]+?)|while\s+([^{;]+?)|loop)\s*\{', body):
        if k >= len(spec.get('loops', [])):
            raise ValueError('more loops than invariants')
        L = spec['loops'][k]
        k += 1
        e = brace(body, m.end() - 1)
        if m.group(2) is not None:
            h = 'for %s in it: %s' % (m.group(2), m.group(3))
        else:
            h = m.group(1)
        out += body[i:m.start()] + h + '\n    %s\n' % (L.get('raw') or 'invariant ' + L['inv'])
        if L.get('dec'):
            out += '    decreases %s\n' % L['dec']
        out += '    {\n    proof { %s }\n' % L.get('head', '')
        out += body[m.end():e] + '\n    proof { %s }\n' % L.get('after', '')
        i = e
    if k != len(spec.get('loops', [])):
        raise ValueError('fewer loops than invariants')
    out += body[i:]
    for pat, proof in spec.get('before', []):
        if len(re.findall(pat, out)) != 1:
            raise ValueError('no single place for a ghost assertion')
        out = re.sub(pat, lambda m: 'proof { %s }\n' % proof + m.group(0), out)
    if spec.get('start'):
        out = '{\n    proof { %s }\n' % spec['start'] + out[1:]
    if spec.get('end'):
        out = out.rstrip()[:-1] + '    proof { %s }\n}' % spec['end']
    head = spec.get('attrs', '') + head
    if spec.get('impl'):
        return spec['impl'] + ' {\n' + head + out + '\n}\n'
    return head + out


def run_all(units, repo, work, left, log):
    res = []
    for u in units:
        t0 = time.time()
        r = dict(name=u['name'], status='undet', verified=0, errors=0, functions=[], dropped=u['dropped'], secs=0,
                 messages=[], output='', why='', twin=u.get('twin'))
        res.append(r)
        try:
            src = open(os.path.join(repo, u['file'])).read()
            fns = []
            for pat in u.get('text', []):
                if not re.search(pat, src):
                    raise ValueError('%s not found' % pat)
            for n, spec in u['fns'].items():
                h, b = extract(src, n, spec.get('from'))
                fns.append(annotate(h, b, spec))
                r['functions'].append('%s::%s' % (u['file'], n))
            text = u['prelude'] + '\nverus! {\n' + u['spec'] + '\n'.join(fns) + '\nfn main() {}\n}\n'
        except (ValueError, OSError) as e:
            r['why'] = 'the extraction does not apply to this tree: %s' % e
            continue
        d = os.path.join(work, 'verus-%d' % os.getpid())
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, u['name'] + '.rs')
        open(f, 'w').write(text)
        try:
            p = subprocess.run(['verus', f], cwd=d, capture_output=True, text=True, timeout=max(10, min(200, left() - 60)))
            out = p.stdout + p.stderr
        except (subprocess.TimeoutExpired, OSError) as e:
            out = str(e)
        r['output'] = out
        r['secs'] = round(time.time() - t0, 2)
        m = re.search(r'(\d+) verified, (\d+) errors', out)
        r['messages'] = re.findall(r'^error: (.*)$', out, re.M)
        if m and m.group(2) == '0':
            r.update(status='ok', verified=int(m.group(1)))
        elif m:
            r.update(status='fail', verified=int(m.group(1)), errors=int(m.group(2)))
        else:
            r['why'] = 'Verus does not accept the extracted text: ' + '; '.join(r['messages'][:2])
        log('verus %s: %s %s' % (u['name'], r['status'], r['why'] or out.strip().splitlines()[-1:]))
        for x in os.listdir(d):
            os.remove(os.path.join(d, x))
        os.rmdir(d)
    return res


UINT_IN_BASE = dict(
    name='uint_in_base', file='src/parser.rs', twin='number_value_bounded', dropped='nothing',
    prelude='use vstd::prelude::*;\nuse vstd::std_specs::iter::*;',
    spec='''
global size_of usize == 8;
#[derive(PartialEq, Debug, Clone, Copy)]
pub struct Exception(pub i16);
pub const RESULT_OUT_OF_RANGE: Exception = Exception(-11);
pub enum IResult<'l, T> {
    Done(&'l [u8], T),
    Err(Exception),
}
pub open spec fn dig(c: u8) -> int {
    if 48 <= c <= 57 { c - 48 } else if 97 <= c <= 102 { c - 87 } else if 65 <= c <= 70 { c - 55 } else { 1000 }
}
pub open spec fn wrap(x: int) -> int {
    let m = x % 0x1_0000_0000_0000_0000;
    if m >= 0x8000_0000_0000_0000 { m - 0x1_0000_0000_0000_0000 } else { m }
}
/// the value of a numeral, modulo the cell size
pub open spec fn val(s: Seq<u8>, base: int) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { wrap(wrap(val(s.drop_last(), base) * base) + dig(s.last())) }
}
pub open spec fn numeral(s: Seq<u8>, base: int) -> bool {
    forall|i: int| 0 <= i < s.len() ==> dig(#[trigger] s[i]) < base && dig(s[i]) < 16
}
''',
    fns={'uint_in_base': dict(
        ensures='''match r {
        IResult::Done(rest, v) => input@.len() > 0 && numeral(input@, base as int) && rest@.len() == 0 && v == val(input@, base as int),
        IResult::Err(_) => !(input@.len() > 0 && numeral(input@, base as int)),
    }''',
        loops=[dict(inv='''len == it.index@, it.index@ <= input@.len(), bytes@ == input@,
        IteratorSpec::remaining(&it.snapshot@) == input@.map(|i: int, x: u8| &x),
        numeral(input@.take(len as int), base as int), value == val(input@.take(len as int), base as int),''',
                    head='''assert(input.len() == input@.len());
        assert(input@.take(len as int + 1).drop_last() =~= input@.take(len as int));
        assert(input@.take(len as int + 1).last() == *c);''',
                    after='assert(input@.take(len as int) =~= input@);')])})


DICTIONARY = dict(
    name='dictionary', file='src/core.rs', twin='history_bounded',
    dropped='struct fields the two functions do not use; `self.wordlist()[i]` is written `self.wordlist().words[i]` (the body of Index::index, whose text is checked); data_space() is given its shared-reference contract',
    text=[r'fn index\(&self, index: usize\) -> &Word<Target> \{\s*&self\.words\[index\]\s*\}'],
    prelude='use vstd::prelude::*;',
    spec='''
global size_of usize == 8;
pub const BUCKET_SIZE: usize = 64;
pub struct Word<Target> { pub hidden: bool, pub link: usize, pub hash: u32, pub nfa: usize, pub target: core::marker::PhantomData<Target> }
pub struct Wordlist<Target> { pub words: Vec<Word<Target>>, pub buckets: [usize; BUCKET_SIZE], pub last: usize }
pub struct DataSpace { pub dummy: u8 }
pub struct Vm { pub wl: Wordlist<u8>, pub ds: DataSpace }

pub uninterp spec fn eqi(a: Seq<char>, b: Seq<char>) -> bool;
pub uninterp spec fn hash_of(a: Seq<char>) -> u32;
pub uninterp spec fn text(ds: DataSpace, nfa: usize) -> Seq<char>;
#[verifier::external_body]
pub proof fn case_hash() ensures forall|a: Seq<char>, b: Seq<char>| #[trigger] eqi(a, b) ==> hash_of(a) == hash_of(b) {}
pub assume_specification[str::eq_ignore_ascii_case](a: &str, b: &str) -> (r: bool) ensures r == eqi(a@, b@);

impl DataSpace {
    #[verifier::external_body]
    pub unsafe fn get_str(&self, addr: usize) -> (r: &str) ensures r@ == text(*self, addr) { unimplemented!() }
}
pub open spec fn bucket<T>(w: Word<T>) -> int { w.hash as int % 64 }
/// the link of word `i` is the next lower word of its bucket, or 0
pub open spec fn linked<T>(l: Wordlist<T>, i: int) -> bool {
    &&& l.words@[i].link < i
    &&& l.words@[i].link != 0 ==> bucket(l.words@[i]) == bucket(l.words@[l.words@[i].link as int])
    &&& forall|j: int| l.words@[i].link < j < i ==> bucket(#[trigger] l.words@[j]) != bucket(l.words@[i])
}
/// the head of bucket `b` is its highest word, or 0
pub open spec fn headed<T>(l: Wordlist<T>, b: int) -> bool {
    &&& l.buckets@[b] != 0 ==> l.buckets@[b] < l.words@.len() && bucket(l.words@[l.buckets@[b] as int]) == b
    &&& forall|j: int| l.buckets@[b] < j < l.words@.len() ==> bucket(#[trigger] l.words@[j]) != b
}
pub open spec fn chained<T>(l: Wordlist<T>) -> bool {
    &&& forall|i: int| 0 < i < l.words@.len() ==> #[trigger] linked(l, i)
    &&& forall|b: int| 0 <= b < 64 ==> #[trigger] headed(l, b)
}
pub open spec fn named<T>(l: Wordlist<T>, ds: DataSpace) -> bool {
    forall|i: int| 0 < i < l.words@.len() ==> (#[trigger] l.words@[i]).hash == hash_of(text(ds, l.words@[i].nfa))
}
pub open spec fn hit<T>(l: Wordlist<T>, ds: DataSpace, name: Seq<char>, i: int) -> bool {
    0 < i < l.words@.len() && !l.words@[i].hidden && eqi(text(ds, l.words@[i].nfa), name)
}

impl<Target> Wordlist<Target> {
    #[verifier::external_body]
    fn hash(name: &str) -> (r: u32) ensures r == hash_of(name@) { unimplemented!() }
}
impl Vm {
    fn wordlist(&self) -> (r: &Wordlist<u8>) ensures r == &self.wl { &self.wl }
    fn data_space(&self) -> (r: &DataSpace) ensures r == &self.ds { &self.ds }
}
''',
    fns={
        'is_hidden': {'from': 'impl<Target> Word<Target>', 'impl': 'impl<Target> Word<Target>', 'ensures': 'r == self.hidden'},
        'nfa': {'from': 'impl<Target> Word<Target>', 'impl': 'impl<Target> Word<Target>', 'ensures': 'r == self.nfa'},
        'push': {'from': 'impl<Target> Wordlist<Target>', 'impl': 'impl<Target> Wordlist<Target>',
            'requires': 'chained(*old(self)), old(self).words@.len() < usize::MAX,',
            'ensures': '''chained(*final(self)),
            final(self).words@.len() == old(self).words@.len() + 1,
            forall|i: int| 0 <= i < old(self).words@.len() ==> final(self).words@[i] == old(self).words@[i],
            final(self).last == old(self).words@.len(),
            final(self).words@.last().hash == hash_of(name@), final(self).words@.last().nfa == w.nfa, final(self).words@.last().hidden == w.hidden,
            ''',
            'end': '''let b = hash_of(name@) as int % 64;
            assert(headed(*old(self), b));
            assert forall|i: int| 0 < i < self.words@.len() implies #[trigger] linked(*self, i) by {
                if i < old(self).words@.len() { assert(linked(*old(self), i)); }
            }
            assert forall|c: int| 0 <= c < 64 implies #[trigger] headed(*self, c) by { assert(headed(*old(self), c)); }'''},
        'find': {'impl': 'impl Vm',
            'subs': [(r'self\.wordlist\(\)\s*\[', 'self.wordlist().words[')],
            'requires': 'chained(old(self).wl), named(old(self).wl, old(self).ds),',
            'ensures': '''*final(self) == *old(self),
            match r {
                Some(w) => hit(old(self).wl, old(self).ds, name@, w as int) && forall|j: int| w < j ==> !hit(old(self).wl, old(self).ds, name@, j),
                None => forall|j: int| !hit(old(self).wl, old(self).ds, name@, j),
            }
            ''',
            'start': '''case_hash();
            let h = hash_of(name@);
            assert(headed(self.wl, h as int % 64));
            assert forall|j: int| self.wl.buckets@[h as int % 64] < j implies !hit(self.wl, self.ds, name@, j) by {
                if hit(self.wl, self.ds, name@, j) { assert(self.wl.words@[j].hash == h); assert(bucket(self.wl.words@[j]) == h as int % 64); }
            }''',
            'loops': [dict(inv='''*self == *old(self), chained(self.wl), named(self.wl, self.ds), hash == hash_of(name@),
                w != 0 ==> w < self.wl.words@.len() && bucket(self.wl.words@[w as int]) == hash as int % 64,
                forall|j: int| w < j ==> !hit(self.wl, self.ds, name@, j),''', dec='w',
                head='''case_hash(); assert(linked(self.wl, w as int));
                assert forall|j: int| self.wl.words@[w as int].link < j < w implies !hit(self.wl, self.ds, name@, j) by {
                    if hit(self.wl, self.ds, name@, j) { assert(self.wl.words@[j].hash == hash); assert(bucket(self.wl.words@[j]) == hash as int % 64); }
                }''')]},
    })


PARSERS = dict(
    name='parsers', file='src/core.rs', twin='parsing_bounded',
    dropped='nothing of the bodies; `b.get(i..)` and `source.len()` are calls of functions with the contract of str::get and str::len; the accessors have the contract of field access; the data stack is abstract',
    prelude='use vstd::prelude::*;\nuse vstd::utf8::*;\nuse vstd::string::*;',
    spec="\nglobal size_of usize == 8;\n#[verifier::external_type_specification]\n#[verifier::external_body]\npub struct ExCI<'a>(core::str::CharIndices<'a>);\n/// characters still to come, and the byte offset of the first of them\npub uninterp spec fn todo<'a>(c: core::str::CharIndices<'a>) -> Seq<char>;\npub uninterp spec fn at<'a>(c: core::str::CharIndices<'a>) -> int;\npub open spec fn blen(s: Seq<char>) -> int { encode_utf8(s).len() as int }\n#[verifier::external_body]\nfn str_byte_len(s: &str) -> (r: usize) ensures r == blen(s@) { s.len() }\n/// what `get(i..)` returns\npub uninterp spec fn tail(s: Seq<char>, i: int) -> Option<Seq<char>>;\n#[verifier::external_body]\nfn str_get_from(s: &String, i: usize) -> (r: Option<&str>)\n   ensures match r { Some(t) => tail(s@, i as int) == Some(t@), None => tail(s@, i as int) is None } , r is Some ==> i + blen(r->0@) <= usize::MAX\n{ s.get(i..) }\npub assume_specification<'a>[str::char_indices](s: &'a str) -> (r: core::str::CharIndices<'a>) ensures todo(r) == s@, at(r) == 0;\npub assume_specification<'a>[<core::str::CharIndices<'a> as Iterator>::next](c: &mut core::str::CharIndices<'a>) -> (r: Option<(usize, char)>)\n    ensures match r {\n        Some((i, ch)) => todo(*old(c)).len() > 0 && i == at(*old(c)) && ch == todo(*old(c))[0] && todo(*final(c)) == todo(*old(c)).skip(1) && at(*final(c)) == i + blen(seq![ch]),\n        None => todo(*old(c)).len() == 0 && todo(*final(c)).len() == 0,\n    };\npub struct State { pub source_index: usize }\npub struct Stack { pub v: Vec<isize> }\npub uninterp spec fn top(s: Stack) -> isize;\npub uninterp spec fn rest(s: Stack) -> Stack;\nimpl Stack {\n    #[verifier::external_body]\n    fn pop(&mut self) -> (r: isize) ensures r == top(*old(self)), *final(self) == rest(*old(self)) { unimplemented!() }\n}\npub struct Vm { pub s: Stack, pub st: State, pub inbuf: Option<String>, pub tkn: Option<String> }\npub open spec fn white(c: char) -> bool { c == '\\t' || c == '\\n' || c == '\\r' || c == ' ' }\n/// the first word of `s` is s[k..m]\npub open spec fn scanned(s: Seq<char>, k: int, m: int) -> bool {\n    &&& 0 <= k <= m <= s.len()\n    &&& forall|i: int| 0 <= i < k ==> white(#[trigger] s[i])\n    &&& forall|i: int| k <= i < m ==> !white(#[trigger] s[i])\n}\npub open spec fn word(s: Seq<char>, k: int, m: int) -> bool { scanned(s, k, m) && (m < s.len() ==> k < m && white(s[m])) }\npub open spec fn input(v: Vm) -> Option<Seq<char>> { match v.inbuf { Some(b) => tail(b@, v.st.source_index as int), None => None } }\nimpl Vm {\n    fn state(&mut self) -> (r: &mut State)\n       ensures final(self).s == old(self).s, *r == old(self).st, final(self).st == *final(r), final(self).inbuf == old(self).inbuf, final(self).tkn == old(self).tkn\n    { &mut self.st }\n    fn last_token(&mut self) -> (r: &mut Option<String>)\n       ensures *r == old(self).tkn, final(self).tkn == *final(r), final(self).inbuf == old(self).inbuf, final(self).s == old(self).s, final(self).st == old(self).st\n    { &mut self.tkn }\n    fn input_buffer(&mut self) -> (r: &mut Option<String>)\n       ensures *r == old(self).inbuf, final(self).inbuf == *final(r), final(self).tkn == old(self).tkn, final(self).s == old(self).s, final(self).st == old(self).st\n    { &mut self.inbuf }\n    fn set_input_buffer(&mut self, b: String)\n       ensures final(self).inbuf == Some(b), final(self).tkn == old(self).tkn, final(self).s == old(self).s, final(self).st == old(self).st\n    { self.inbuf = Some(b) }\n    fn set_last_token(&mut self, b: String)\n       ensures final(self).tkn == Some(b), final(self).inbuf == old(self).inbuf, final(self).s == old(self).s, final(self).st == old(self).st\n    { self.tkn = Some(b) }\n    fn s_stack(&mut self) -> (r: &mut Stack)\n       ensures *r == old(self).s, final(self).s == *final(r), final(self).st == old(self).st, final(self).inbuf == old(self).inbuf, final(self).tkn == old(self).tkn\n    { &mut self.s }\n}\n/// the text up to the delimiter `v`\npub open spec fn upto(s: Seq<char>, v: isize, m: int) -> bool { 0 <= m <= s.len() && forall|i: int| 0 <= i < m ==> (#[trigger] s[i]) as isize != v }\npub open spec fn parsed(s: Seq<char>, v: isize, m: int) -> bool { upto(s, v, m) && (m < s.len() ==> s[m] as isize == v) }\npub open spec fn alls(s: Seq<char>, v: isize, m: int) -> bool { 0 <= m <= s.len() && forall|i: int| 0 <= i < m ==> (#[trigger] s[i]) as isize == v }\npub open spec fn skipped(s: Seq<char>, v: isize, m: int) -> bool { alls(s, v, m) && (m < s.len() ==> s[m] as isize != v) }\npub open spec fn or_empty(o: Option<Seq<char>>) -> Seq<char> { match o { Some(s) => s, None => Seq::empty() } }\n#[verifier::external_body]\nfn char_len(c: char) -> (r: usize) ensures r == blen(seq![c]) { c.len_utf8() }\n",
    fns={
        'parse_word': {'attrs': '#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]\n',
             'before': [('self\\.state\\(\\)\\.source_index\\s*(?:=|\\+=)[^=]',
                         'assert forall|m: int| 0 <= m <= source@.len() implies #[trigger] blen(source@.take(m)) <= blen(source@) by { encode_utf8_concat(source@.take(m), source@.skip(m)); '
                         'assert(source@.take(m) + source@.skip(m) =~= source@); }')],
             'end': 'if input(*old(self)) is Some { let s = input(*old(self))->0;\n'
                    '            assert(exists|k: int, m: int| #[trigger] word(s, k, m) && last_token@ == s.subrange(k, m) && self.st.source_index == old(self).st.source_index + blen(s.take(m)));\n'
                    '            assert(self.tkn->0@ == last_token@); }',
             'ensures': 'final(self).tkn is Some, final(self).inbuf == old(self).inbuf, final(self).s == old(self).s,\n'
                        '            match input(*old(self)) {\n'
                        '                None => final(self).tkn->0@.len() == 0 && final(self).st.source_index == old(self).st.source_index,\n'
                        '                Some(s) => exists|k: int, m: int| #[trigger] word(s, k, m) && final(self).tkn->0@ == s.subrange(k, m)\n'
                        '                    && final(self).st.source_index == old(self).st.source_index + blen(s.take(m)),\n'
                        '            }',
             'impl': 'impl Vm',
             'loops': [{'dec': 'todo(char_indices).len()',
                        'head': 'let s = source@; let n = s.len() - todo(char_indices).len();\n'
                                '                       if n < s.len() {\n'
                                '                         assert(s.skip(n).skip(1) =~= s.skip(n + 1));\n'
                                '                         assert(s.take(n + 1) =~= s.take(n) + seq![s[n]]);\n'
                                '                         assert(s.take(n).push(s[n]) =~= s.take(n + 1));\n'
                                '                         assert(s.skip(n)[0] == s[n]);\n'
                                '                         encode_utf8_concat(s.take(n), seq![s[n]]);\n'
                                '                         let k = n - last_token@.len();\n'
                                '                         assert(s.subrange(k, n).push(s[n]) =~= s.subrange(k, n + 1));\n'
                                '                         assert(s.subrange(n + 1, n + 1) =~= Seq::<char>::empty());\n'
                                '                         if k == n { assert(last_token@ =~= Seq::<char>::empty()); assert(white(s[n]) ==> scanned(s, n + 1, n + 1)); }\n'
                                '                         else if white(s[n]) { assert(word(s, k, n)); }\n'
                                '                       } else { assert(s.take(n) =~= s); assert(word(s, n - last_token@.len(), n)); }',
                        'raw': 'invariant_except_break cnt == blen(source@), todo(char_indices).len() <= source@.len(),\n'
                               '                     todo(char_indices) == source@.skip(source@.len() - todo(char_indices).len()),\n'
                               '                     at(char_indices) == blen(source@.take(source@.len() - todo(char_indices).len())),\n'
                               '                     ({ let n = source@.len() - todo(char_indices).len(); let k = n - last_token@.len();\n'
                               '                       0 <= k && last_token@ == source@.subrange(k, n) && scanned(source@, k, n) }),\n'
                               '                    ensures exists|k: int, m: int| #[trigger] word(source@, k, m) && last_token@ == source@.subrange(k, m) && cnt == blen(source@.take(m)),'}],
             'requires': 'old(self).tkn is Some',
             'subs': [('(\\w+)\\s*\\.get\\((self\\.state\\(\\)\\.source_index)\\.\\.\\)', 'str_get_from(&\\1, \\2)'), ('\\bsource\\.len\\(\\)', 'str_byte_len(source)'), ('(\\w+)\\.len_utf8\\(\\)', 'char_len(\\1)')]},
        'parse': {'attrs': '#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]\n',
             'before': [('let mut char_indices', 'reveal_strlit(""); let e = Seq::<char>::empty(); encode_utf8_concat(e, e); assert(e + e =~= e); assert(""@ =~= e); assert(source@ =~= or_empty(input(*old(self)))); assert(old(self).st.source_index + blen(source@) <= usize::MAX);'), ('self\\.state\\(\\)\\.source_index\\s*(?:=|\\+=)[^=]',
                         'assert forall|m: int| 0 <= m <= source@.len() implies #[trigger] blen(source@.take(m)) <= blen(source@) by { encode_utf8_concat(source@.take(m), source@.skip(m)); '
                         'assert(source@.take(m) + source@.skip(m) =~= source@); }assert(source@ =~= or_empty(input(*old(self)))); assert(source@.take(0) =~= Seq::<char>::empty()); let m = choose|m: int| #[trigger] parsed(source@, v, m) && last_token@ == source@.take(m) && cnt == blen(source@.take(if m < source@.len() { m + 1 } else { m })); assert(blen(source@.take(if m < source@.len() { m + 1 } else { m })) <= blen(source@));')],
             'end': 'let s = or_empty(input(*old(self)));\n'
                    '            assert(exists|m: int| #[trigger] parsed(s, top(old(self).s), m) && last_token@ == s.take(m) && self.st.source_index == old(self).st.source_index + blen(s.take(if m < s.len() { m '
                    '+ 1 } else { m })));\n'
                    '            assert(self.tkn->0@ == last_token@);',
             'ensures': 'final(self).tkn is Some, final(self).inbuf == old(self).inbuf, final(self).s == rest(old(self).s),\n'
                        '            exists|m: int| #[trigger] parsed(or_empty(input(*old(self))), top(old(self).s), m)\n'
                        '                && final(self).tkn->0@ == or_empty(input(*old(self))).take(m)\n'
                        '                && final(self).st.source_index == old(self).st.source_index + blen(or_empty(input(*old(self))).take(if m < or_empty(input(*old(self))).len() { m + 1 } else { m })),',
             'impl': 'impl Vm',
             'loops': [{'dec': 'todo(char_indices).len()',
                        'head': 'let s = source@; let n = s.len() - todo(char_indices).len();\n'
                                '                       if n < s.len() {\n'
                                '                         assert(s.skip(n).skip(1) =~= s.skip(n + 1));\n'
                                '                         assert(s.take(n + 1) =~= s.take(n) + seq![s[n]]);\n'
                                '                         assert(s.take(n).push(s[n]) =~= s.take(n + 1));\n'
                                '                         assert(s.skip(n)[0] == s[n]);\n'
                                '                         encode_utf8_concat(s.take(n), seq![s[n]]);\n'
                                '                         if s[n] as isize == v { assert(parsed(s, v, n)); if n + 1 == s.len() { assert(s.take(n + 1) =~= s); } }\n'
                                '                       } else { assert(s.take(n) =~= s); assert(parsed(s, v, n)); }',
                        'raw': 'invariant_except_break cnt == blen(source@), v == top(old(self).s), todo(char_indices).len() <= source@.len(),\n'
                               '                     todo(char_indices) == source@.skip(source@.len() - todo(char_indices).len()),\n'
                               '                     at(char_indices) == blen(source@.take(source@.len() - todo(char_indices).len())),\n'
                               '                     ({ let n = source@.len() - todo(char_indices).len(); last_token@ == source@.take(n) && upto(source@, v, n) }),\n'
                               '                    ensures exists|m: int| #[trigger] parsed(source@, v, m) && last_token@ == source@.take(m) && cnt == blen(source@.take(if m < source@.len() { m + 1 } else { m '
                               '})),'}],
             'requires': 'old(self).tkn is Some, old(self).inbuf is Some',
             'subs': [('(\\w+)\\s*\\.get\\((self\\.state\\(\\)\\.source_index)\\.\\.\\)', 'str_get_from(&\\1, \\2)'), ('\\bsource\\.len\\(\\)', 'str_byte_len(source)'), ('(\\w+)\\.len_utf8\\(\\)', 'char_len(\\1)')]},
        '_skip': {'attrs': '#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]\n',
             'before': [('let mut char_indices', 'reveal_strlit(""); let e = Seq::<char>::empty(); encode_utf8_concat(e, e); assert(e + e =~= e); assert(""@ =~= e); assert(source@ =~= or_empty(input(*old(self)))); assert(old(self).st.source_index + blen(source@) <= usize::MAX);'), ('self\\.state\\(\\)\\.source_index\\s*(?:=|\\+=)[^=]',
                         'assert forall|m: int| 0 <= m <= source@.len() implies #[trigger] blen(source@.take(m)) <= blen(source@) by { encode_utf8_concat(source@.take(m), source@.skip(m)); '
                         'assert(source@.take(m) + source@.skip(m) =~= source@); }assert(source@ =~= or_empty(input(*old(self)))); assert(source@.take(0) =~= Seq::<char>::empty());')],
             'ensures': 'final(self).tkn == old(self).tkn, final(self).inbuf == old(self).inbuf, final(self).s == rest(old(self).s),\n'
                        '            exists|m: int| #[trigger] skipped(or_empty(input(*old(self))), top(old(self).s), m)\n'
                        '                && final(self).st.source_index == old(self).st.source_index + blen(or_empty(input(*old(self))).take(m)),',
             'impl': 'impl Vm',
             'loops': [{'dec': 'todo(char_indices).len()',
                        'head': 'let s = source@; let n = s.len() - todo(char_indices).len();\n'
                                '                       if n < s.len() {\n'
                                '                         assert(s.skip(n).skip(1) =~= s.skip(n + 1));\n'
                                '                         assert(s.take(n + 1) =~= s.take(n) + seq![s[n]]);\n'
                                '                         assert(s.take(n).push(s[n]) =~= s.take(n + 1));\n'
                                '                         assert(s.skip(n)[0] == s[n]);\n'
                                '                         encode_utf8_concat(s.take(n), seq![s[n]]);assert forall|m: int| 0 <= m <= source@.len() implies #[trigger] blen(source@.take(m)) <= blen(source@) by { '
                                'encode_utf8_concat(source@.take(m), source@.skip(m)); assert(source@.take(m) + source@.skip(m) =~= source@); }\n'
                                '                         if s[n] as isize != v { assert(skipped(s, v, n)); }\n'
                                '                         assert(blen(s.take(n + 1)) <= blen(s));\n'
                                '                       } else { assert(skipped(s, v, n)); }',
                        'raw': 'invariant_except_break v == top(old(self).s), todo(char_indices).len() <= source@.len(),\n'
                               '                     todo(char_indices) == source@.skip(source@.len() - todo(char_indices).len()),\n'
                               '                     at(char_indices) == blen(source@.take(source@.len() - todo(char_indices).len())),\n'
                               '                     ({ let n = source@.len() - todo(char_indices).len(); cnt == blen(source@.take(n)) && alls(source@, v, n) }),\n'
                               '                    ensures exists|m: int| #[trigger] skipped(source@, v, m) && cnt == blen(source@.take(m)),'}],
             'requires': 'old(self).inbuf is Some',
             'subs': [('(\\w+)\\s*\\.get\\((self\\.state\\(\\)\\.source_index)\\.\\.\\)', 'str_get_from(&\\1, \\2)'), ('\\bsource\\.len\\(\\)', 'str_byte_len(source)'), ('(\\w+)\\.len_utf8\\(\\)', 'char_len(\\1)')]},
    })


UINT = dict(
    name='uint', file='src/parser.rs', twin='uint_bounded',
    dropped='nothing; the closure is given its type and a specification',
    prelude='use vstd::prelude::*;\nuse vstd::std_specs::iter::*;',
    spec='''
global size_of usize == 8;
#[derive(PartialEq, Debug, Clone, Copy)]
pub struct Exception(pub i16);
pub const RESULT_OUT_OF_RANGE: Exception = Exception(-11);
pub enum IResult<'l, T> {
    Done(&'l [u8], T),
    Err(Exception),
}
pub open spec fn digit(c: u8) -> bool { 48 <= c <= 57 }
pub open spec fn digits(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> digit(#[trigger] s[i]) }
/// the number the digits denote
pub open spec fn val(s: Seq<u8>) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { val(s.drop_last()) * 10 + (s.last() - 48) }
}
''',
    fns={'uint': dict(
        subs=[(r"\|x\| (x\.checked_add\(\(\*c - b'0'\) as isize\))",
               r"|x: isize| -> (q: Option<isize>) requires 48 <= *c <= 57, ensures q == (if x + (*c - 48) <= isize::MAX { Some((x + (*c - 48)) as isize) } else { None::<isize> }) { \1 }")],
        ensures='''match r {
        IResult::Done(rest, v) => {
            let k = input@.len() - rest@.len();
            &&& 0 <= k && rest@ == input@.skip(k) && digits(input@.take(k)) && v == val(input@.take(k))
            &&& k == input@.len() || !digit(input@[k])
        },
        IResult::Err(_) => exists|k: int| 0 < k <= input@.len() && digits(#[trigger] input@.take(k)) && val(input@.take(k)) > isize::MAX,
    }''',
        loops=[dict(raw='''invariant_except_break len == it.index@, it.index@ <= input@.len(),
        IteratorSpec::remaining(&it.snapshot@) == input@.map(|i: int, x: u8| &x),
        invariant bytes@ == input@, input.len() == input@.len(), len <= input@.len(), 0 <= value,
        digits(input@.take(len as int)), value == val(input@.take(len as int)),
        ensures len == input@.len() || !digit(input@[len as int]),''',
                    head='''assert(*c == input@[len as int]);
        assert(input@.take(len as int + 1).drop_last() =~= input@.take(len as int));
        assert(input@.take(len as int + 1).last() == *c);''')])})
