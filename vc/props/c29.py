"""Answer-type query. The model is a nondeterministic stub: every call may fail, return no text, or return a text with arbitrary
(symbolic) characters; the answer is a symbolic text; the number of allowed calls is symbolic."""
from ..unit import Property, Unit
from ..spec import tmpl, world

WS = ' \t\n\r\x0b\x0c'
KINDS = ['raise', 'none', 'number']
ALPHA = 'Type: R\n'
FREE = ['κκκκκκκ', 'κκType:κκκ', 'Type:κκκκ', 'TypeκκκR', 'a\nType:κRκ\nκ', 'Type:κκType:κκ']
FREE_T = FREE + ['κκκκκκκκκ', 'κκκType:κκκκκ', 'Type:κκκTκκκκ']


def B(x):
    return bool(x)


def ref(s):
    """the type named by a reply, or None"""
    n = len(s)
    for i in range(n - 4):
        if B(s[i:i + 5] == 'Type:'):
            j = i + 5
            while j < n and any(B(s[j:j + 1] == c) for c in WS):
                j += 1
            if j == n:
                continue
            k = j
            while k < n and not B(s[k:k + 1] == '\n'):
                k += 1
            return s[j:k]
    return None


class Model:
    """replies: [[kind, text], ...]; more() supplies one more when the code asks for it"""
    def __init__(self, replies, more=None):
        self.replies, self.more, self.calls, self.seen = replies, more, 0, []

    def __call__(self, messages, *a, **k):
        self.calls += 1
        self.seen.append(messages)
        if self.calls > 40:
            raise SystemExit('endless retries')
        if self.calls > len(self.replies):
            self.replies.append(self.more() if self.more else ['raise', ''])
        kind, text = self.replies[self.calls - 1]
        if kind == 'raise':
            raise RuntimeError('service unavailable')
        return None if kind == 'none' else 7 if kind == 'number' else text


def expect(replies, max_try):
    """(number of calls, result)"""
    for k in range(max_try):
        kind, text = replies[k] if k < len(replies) else ['raise', '']
        t = ref(text) if kind == 'text' else None
        if t is not None:
            return k + 1, t
    return max_try, None


def wrapped(ans):
    """the answer between exactly one pair of dollar signs"""
    out = []
    for i in range(len(ans)):
        c = ans[i:i + 1]
        if not B(c == '$'):
            out.append(c)
    return join(['$'] + out + ['$'])


def join(cs):
    if all(isinstance(c, str) for c in cs):
        return ''.join(cs)
    from symx import sstr
    return sstr.mk([x for c in cs for x in sstr.cells(c)])


SHORT = 'Question: {question}\nAnswer: {ground_truth}\nAnalysis:'


def judge(f, i, model, template, ptype=1):
    """-> (problem or None, observed)"""
    try:
        r = f(model, i['question'], i['answer'], ptype, i['max_try'])
    except Exception as ex:
        return 'raised ' + type(ex).__name__, None
    n, want = expect(model.replies, i['max_try'])
    if model.calls != n:
        return f'{model.calls} calls instead of {n}', r
    if (r is None) != (want is None) or want is not None and not B(r == want):
        return 'wrong type text', r
    for m in model.seen:
        text = m[0]['content']
        a = wrapped(i['answer'])
        p = template.replace('{question}', '\x01').replace('{ground_truth}', '\x02').replace('{{', '{').replace('}}', '}')
        full = join([x for c in p for x in ([a] if c == '\x02' else [i['question']] if c == '\x01' else [c])])
        if len(m) != 1 or not B(text == full):
            return 'the prompt does not show the answer between one pair of dollar signs', text
    return None, r


def unit(name, free, ans, tries, ptype=1, real_template=False, kinds=True, secs=100):
    def stubs():
        return {} if real_template else {'math_evaluation.llms.prompts.prompt_template': SHORT, 'math_evaluation.llms.prompts.prompt_template_2': SHORT}

    def body():
        from symx.core import Cur
        e = Cur.eng
        a = e.input('answer', tmpl(ans, 'a', {'κ': '$a '}))
        e.input('question', 'What is {x}?')
        mt = e.input('max_try', tries[e.choose(len(tries), 'max_try')])
        replies = e.input('replies', [])
        cnt = [0]

        def more():
            cnt[0] += 1
            if cnt[0] > max(tries) + 2:
                return ['raise', '']
            k = e.choose(len(free) + (len(KINDS) if kinds else 0), 'kind')
            if k < len(free):
                return ['text', tmpl(free[k], f'r{cnt[0]}_', {'κ': ALPHA})]
            return [KINDS[k - len(free)], '']
        w = world(stubs())
        lm = w.get('math_evaluation.llms.llm_models')
        t = getattr(lm, 'prompt_template' if ptype == 1 else 'prompt_template_2')
        p, got = judge(lm.get_llm_type, dict(answer=a, question='What is {x}?', max_try=mt), Model(replies, more), t, ptype)
        e.prove(p is None, str(p))
        return got

    def oracle(i):
        import math_evaluation.llms.llm_models as lm
        old = lm.prompt_template, lm.prompt_template_2
        try:
            if not real_template:
                lm.prompt_template = lm.prompt_template_2 = SHORT
            t = lm.prompt_template if ptype == 1 else lm.prompt_template_2
            m = Model([list(x) for x in i['replies']])
            p, got = judge(lm.get_llm_type, i, m, t, ptype)
        finally:
            lm.prompt_template, lm.prompt_template_2 = old
        return dict(ok=p is None, got=got, want=f'{p}; expected {expect(m.replies, i["max_try"])}')
    return Unit(name, body, oracle, compare=lambda x, y: x == y, secs=secs, weight=len(ans) + 5 * max(tries), max_paths=100000, every=4)


def units(tier):
    q = tier == 'quick'
    for k, t in enumerate(FREE if q else FREE_T):
        yield unit(f'one reply {t!r}', [t], 'a', [1], kinds=False, secs=100 if q else 900)
    R = ['Type:κR', 'κ']
    yield unit('up to 3 calls', R, 'a', [0, 1, 2, 3], secs=120 if q else 900)
    yield unit('6 calls, failures', ['κType: R'], 'a', [6], secs=100)
    if not q:
        yield unit('up to 5 calls', R, 'a', [4, 5], secs=1200)
    for n in (0, 1, 2, 3, 4, 5) if q else range(8):
        yield unit(f'any answer of length {n}', ['Type: R'], 'κ' * n, [1], kinds=False)
    yield unit('second prompt', ['Type: R'], 'κκκ', [1], 2, kinds=False)
    yield unit('the real prompt', ['Type:κR'], '$κκ', [2], 1, True)
    yield unit('the real second prompt', ['Type:κR'], 'κ$κ', [2], 2, True)


PROP = Property('C29', lambda tier: list(units(tier)),
                'replies of up to 9 (thorough 11) symbolic characters over the letters of "Type: R" and newline, failing calls, replies without text; up to 6 allowed calls; answers of up to 5 (thorough 7) characters over $, a letter and blank',
                ['the model is a stub: any call may fail or answer with any of the bounded texts', 'the prompt wording itself is not specified, only how the answer and the question stand in it'])
