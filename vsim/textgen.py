"""Workload: calls of the public API, generated from one PRNG.

A call ("op") is a JSON list [function, text, language, style]:
  text      a string, or {"py": name} for a value that is not text,
  language  None (detect) or a language code (supported or not),
  style     0 positional, 1 keyword.
The vocabulary is read from the data files of the tree under test, so that the
workload follows it.
"""
import os
import random

SUPPORTED = ["en", "es", "hi", "ru", "uk"]
FUNCS = ["parse", "parse_number", "parse_ordinal", "parse_fraction"]
NOT_TEXT = {"None": None, "5": 5, "bytes": b"two", "list": ["two"]}
KINDS = ["UNIT_NUMBERS", "DIRECT_NUMBERS", "TENS", "HUNDREDS", "BIG_POWERS_OF_TEN"]
NOISE = ["cats", "I", "have", "xyzzy", "go", "the", "casas", "кот", "и", "дом", "घर", "robust", "they",
         "bath", "path", "sixt", "on", "forever", "11", "42", "3", "½", "e", "Ünïcödé", "day", "с", "_",
         "number", "and", "y", "-", "tone", "seventeenths", "th", "ieth", "n'th"]
PUNCT = [".", ",", ";", "!", "?", ":", "/", "(", ")", "\"", "'", "’", "…"]
ORDINALS = ["first", "second", "third", "fourth", "fifth", "eighth", "ninth", "twelfth", "twentieth",
            "fiftieth", "hundredth", "thousandth", "millionth", "twenty-first", "thirtieth", "seventh"]
FRACTION = [" divided by ", " over ", " by ", " / ", "/"]
SPACES = [" ", " ", " ", " ", "  ", "   ", "\t", "\n", "\u00a0"]


def load_vocab(repo):
    vocab = {}
    for lang in SUPPORTED:
        ns = {}
        try:
            with open(os.path.join(repo, "number_parser", "data", lang + ".py"), encoding="utf-8") as f:
                exec(compile(f.read(), lang, "exec"), ns)
            info = ns["info"]
            v = {k: list(info[k]) for k in KINDS}
            v["SKIP"] = list(info["SKIP_TOKENS"])
        except Exception:      # a broken data file is for the checks to notice, not for the generator
            v = {k: ["one"] for k in KINDS}
            v["SKIP"] = ["and"]
        v["ALL"] = [w for k in KINDS for w in v[k]] or ["one"]
        vocab[lang] = v
    return vocab


class TextGen:
    def __init__(self, repo):
        self.vocab = load_vocab(repo)

    # ------------------------------------------------------------ phrases
    def word(self, r, lang):
        v = self.vocab[lang]
        kind = r.choice(KINDS)
        return r.choice(v[kind] or v["ALL"])

    def below_100(self, r, lang):
        v = self.vocab[lang]
        x = r.random()
        if x < 0.35 and v["UNIT_NUMBERS"]:
            return [r.choice(v["UNIT_NUMBERS"])]
        if x < 0.6 and v["DIRECT_NUMBERS"]:
            return [r.choice(v["DIRECT_NUMBERS"])]
        if v["TENS"]:
            out = [r.choice(v["TENS"])]
            if r.random() < 0.6:
                if v["SKIP"] and r.random() < 0.4:
                    out.append(r.choice(v["SKIP"]))
                out.append(r.choice(v["UNIT_NUMBERS"] or v["ALL"]))
            return out
        return [self.word(r, lang)]

    def number(self, r, lang):
        v = self.vocab[lang]
        out = []
        for _ in range(r.choice([1, 1, 1, 2, 2, 3])):
            if r.random() < 0.4 and v["HUNDREDS"]:
                out.append(r.choice(v["HUNDREDS"]))
                if v["SKIP"] and r.random() < 0.2:
                    out.append(r.choice(v["SKIP"]))
            out += self.below_100(r, lang)
            if r.random() < 0.5 and v["BIG_POWERS_OF_TEN"]:
                out.append(r.choice(v["BIG_POWERS_OF_TEN"][:8]))
                if v["SKIP"] and r.random() < 0.25:
                    out.append(r.choice(v["SKIP"]))
        if lang == "en" and r.random() < 0.2:
            out.append(r.choice(ORDINALS))
        return out

    def grand(self, r, lang):
        """descending powers, each with a group that itself contains smaller multipliers"""
        v = self.vocab[lang]
        big = v["BIG_POWERS_OF_TEN"]
        if len(big) < 3:
            return self.number(r, lang)
        ks = sorted(r.sample(range(min(len(big), 14)), min(r.choice([2, 2, 3, 4]), len(big))), reverse=r.random() < 0.9)
        small = big[:4]
        out = []
        for k in ks:
            if v["HUNDREDS"] and r.random() < 0.3:
                out.append(r.choice(v["HUNDREDS"]))
            out += self.below_100(r, lang)
            if r.random() < 0.45:
                out.append(r.choice(small))
                if r.random() < 0.4:
                    out += self.below_100(r, lang)
            out.append(big[k])
        if r.random() < 0.6:
            out += self.below_100(r, lang)
        return out

    def deluge(self, r, lang):
        """far more number words than usual, mostly of one language"""
        n = r.choice([33, 50, 80, 150, 400])
        words = []
        while len(words) < n:
            words += self.number(r, lang if r.random() < 0.97 else r.choice(SUPPORTED))
            if r.random() < 0.3:
                words.append(r.choice(NOISE + PUNCT))
        return self.join(r, words)

    def join(self, r, words):
        out = ""
        for i, w in enumerate(words):
            if i:
                out += "" if w in PUNCT and r.random() < 0.8 else r.choice(SPACES) if r.random() < 0.3 else " "
            out += w
        return out

    def text(self, r, lang=None):
        lang = lang or r.choice(SUPPORTED)
        x = r.random()
        if x < 0.05:
            return r.choice(["", " ", "\n", "32", " 3 ", "0", "٣", "5 6", "½", ".", "-", "and", "y", "th th", "with goldsmith", "'", "\xad"])
        if x < 0.10:
            words = self.grand(r, lang)
        elif x < 0.40:
            words = self.number(r, lang)
        elif x < 0.55:
            words = [self.word(r, lang) for _ in range(r.randint(1, 6))]
        else:
            words = []
            for _ in range(r.randint(1, 4)):
                words += [r.choice(NOISE) for _ in range(r.randint(0, 2))]
                l = lang if r.random() < 0.85 else r.choice(SUPPORTED)
                words += self.number(r, l)
                if l in ("en", lang) and r.random() < 0.15:
                    words.append(r.choice(ORDINALS))
                if self.vocab[l]["SKIP"] and r.random() < 0.25:
                    words.append(r.choice(self.vocab[l]["SKIP"]))
                if r.random() < 0.35:
                    words.append(r.choice(PUNCT))
        s = self.join(r, words)
        return self.mutate(r, s) if r.random() < 0.3 else s

    def mutate(self, r, s):
        """A close relative of s: what a badly keyed cache would confuse with it."""
        x = r.randrange(10)
        if x == 0:
            return s.upper()
        if x == 1:
            return s.title()
        if x == 2:
            return " " + s + "  "
        if x == 3:
            return s.replace(" ", "  ")
        if x == 4 and s:
            i = r.randrange(len(s))
            return s[:i] + "\xad" + s[i:]
        if x == 5:
            return s + " " + r.choice(NOISE)
        if x == 6:
            return s + r.choice(PUNCT)
        if x == 7 and " " in s:
            return s[: s.rindex(" ")]
        if x == 8 and s:
            i = r.randrange(len(s))
            return s[:i] + "'" + s[i:]
        return s.replace(" ", "-")

    def fraction(self, r, lang):
        a, b = self.join(r, self.number(r, lang)), self.join(r, self.number(r, lang))
        s = a + r.choice(FRACTION) + b
        if r.random() < 0.15:
            s += " " + r.choice(NOISE)
        return s

    def tie(self, r):
        """Words of several languages in equal counts: detection has to break a tie."""
        k = r.randint(2, 4)
        langs = r.sample(SUPPORTED, k)
        n = r.randint(1, 2)
        words = [self.word(r, l) for l in langs for _ in range(n)]
        r.shuffle(words)
        return " ".join(words)

    # ------------------------------------------------------------ calls
    def op(self, r):
        x = r.random()
        style = int(r.random() < 0.3)
        if x < 0.04:
            return [r.choice(FUNCS), {"py": r.choice(sorted(NOT_TEXT))}, r.choice([None, "en", "es"]), style]
        if x < 0.08:
            return [r.choice(FUNCS), self.text(r), r.choice(["xx", "fr", "EN", "", "en-IN", "de"]), style]
        lang = r.choice(["en", "en", "es", "hi", "ru", "uk"])
        f = r.choice(["parse", "parse", "parse", "parse_number", "parse_number", "parse_ordinal", "parse_fraction"])
        if f == "parse_fraction":
            t = self.fraction(r, lang) if r.random() < 0.85 else self.text(r, lang)
        elif f == "parse_number":
            t = self.join(r, self.number(r, lang)) if r.random() < 0.6 else self.text(r, lang)
        elif f == "parse_ordinal":
            t = self.join(r, self.number(r, "en") + [r.choice(ORDINALS)]) if r.random() < 0.5 else self.text(r, lang)
        else:
            t = self.text(r, lang)
        y = r.random()
        if y < 0.25:
            l = None
            if r.random() < 0.35:
                t = self.tie(r)
        elif y < 0.35:
            l = r.choice(SUPPORTED)
        else:
            l = lang
        z = r.random()
        if z < 0.035:
            return self.long_op(r)
        elif z < 0.06:
            t = self.join(r, self.grand(r, lang))
        return [f, t, l, style]

    def mixed(self, r, n):
        """n calls naming different languages, each text rich in everything its language has"""
        ops = []
        langs = r.sample(SUPPORTED, len(SUPPORTED))
        for i in range(n):
            l = langs[i % len(langs)]
            v = self.vocab[l]
            words = self.grand(r, l)
            for _ in range(r.randint(0, 2)):
                if v["SKIP"] and r.random() < 0.5:
                    words.append(r.choice(v["SKIP"]))
                words += self.grand(r, l) if r.random() < 0.5 else self.number(r, l)
                if r.random() < 0.3:
                    words.append(r.choice(PUNCT + NOISE))
            f = r.choice(["parse", "parse", "parse", "parse_number", "parse_ordinal", "parse_fraction"])
            t = self.join(r, words)
            if f == "parse_fraction":
                t = self.join(r, self.grand(r, l)) + r.choice(FRACTION) + self.join(r, self.grand(r, l))
            ops.append([f, t, l if r.random() < 0.9 else None, int(r.random() < 0.2)])
        return ops

    def calm(self, r):
        """a long text without a number word, or nearly"""
        n = r.choice([40, 120, 400, 1500])
        x = r.randrange(4)
        if x == 0:
            words = [r.choice(["xyzzy", "cats", "casas", "кот", "дом", "घर", "Ünïcödé", "robust", "they", "_", "42"]) for _ in range(n)]
        elif x == 1:
            words = ["".join(r.choice("abcxyzéи") for _ in range(r.choice([3, 12, 60]))) for _ in range(n // 2)]
        elif x == 2:
            words = ["z" * n]
        else:
            words = [r.choice(PUNCT + ["q"]) for _ in range(n)]
        if r.random() < 0.4:
            words.insert(r.randrange(len(words) + 1), self.word(r, r.choice(SUPPORTED)))
        return " ".join(words)

    def long_tie(self, r):
        """very many number words of two or three languages, in equal counts or nearly"""
        langs = r.sample(SUPPORTED, r.choice([2, 2, 3]))
        n = r.choice([12, 20, 40, 90, 200])
        words = [self.word(r, l) for l in langs for _ in range(n + (r.random() < 0.3))]
        r.shuffle(words)
        return self.join(r, words)

    def long_op(self, r):
        """a call with a text that is long, in one way or another"""
        x = r.random()
        lang = r.choice(SUPPORTED)
        if x < 0.35:
            t = self.deluge(r, lang)
        elif x < 0.65:
            t = self.calm(r)
        elif x < 0.85:
            t = self.long_tie(r)
        else:
            t = " ".join(self.text(r, lang) for _ in range(r.choice([12, 40])))
        return [r.choice(["parse", "parse", "parse", "parse_number", "parse_ordinal", "parse_fraction"]), t, lang if r.random() < 0.4 else None, int(r.random() < 0.2)]

    def twins(self, r):
        """two or three calls whose texts agree over a long stretch (beginning, end, or all but the middle; or have the same words in
        another order) and whose outcomes differ"""
        a, b = r.sample(SUPPORTED, 2)
        size = r.choice([8, 20, 40, 70, 130, 260, 600, 1100])
        calm = [w for w in NOISE if not w.isnumeric()]
        common = ""
        while len(common) < size:
            common += " " + (r.choice(calm) if r.random() < 0.9 else self.word(r, a))
        k = r.choice([1, 2, 4, 8])
        tails = [" ".join(self.word(r, l) for _ in range(k)) for l in ((a, b, a) if r.random() < 0.7 else (a, a, a))]
        x = r.randrange(4)
        if x == 0:
            texts = [common.strip() + " " + t for t in tails]
        elif x == 1:
            texts = [t + common for t in tails]
        elif x == 2:
            texts = [common[:size // 2] + " " + t + " " + common[size // 2:] for t in tails]
        else:
            words = (common + " " + tails[0]).split()
            texts = [" ".join(words)]
            for _ in range(2):
                r.shuffle(words)
                texts.append(" ".join(words))
        f = r.choice(["parse", "parse", "parse", "parse_number", "parse_ordinal", "parse_fraction"])
        l = None if r.random() < 0.75 else a
        if f in ("parse_number", "parse_ordinal"):
            texts = tails
        elif f == "parse_fraction":
            texts = [" ".join(self.grand(r, a)) + " over " + t for t in tails]
        return [[f, t, l, 0] for t in texts[:r.choice([2, 2, 3])]]

    def pool(self, r, n):
        """n calls, about half of them relatives of one another."""
        ops = []
        while len(ops) < n:
            if ops and r.random() < 0.5:
                f, t, l, s = r.choice(ops[-40:])
                x = r.random()
                if x < 0.35 and isinstance(t, str):
                    t = self.mutate(r, t)
                elif x < 0.6:
                    l = r.choice([None] + SUPPORTED)
                elif x < 0.9:
                    f = r.choice(FUNCS)
                else:
                    s = 1 - s
                ops.append([f, t, l, s])
            else:
                ops.append(self.op(r))
        return ops

    def battery(self):
        """A fixed set of calls whose outcomes expose damage to any vocabulary,
        skip-token list, suffix table, separator list or the detection order."""
        ops = []
        for lang in SUPPORTED:
            v = self.vocab[lang]
            for kind in KINDS:
                words = v[kind]
                for i in range(0, len(words), 24):
                    ops.append(["parse", " , ".join(words[i:i + 24]), lang, 0])
            g = random.Random("battery/" + lang)
            ops += [[f, " ".join(self.grand(g, lang)), lang, 0] for f in ("parse", "parse", "parse", "parse_number", "parse_ordinal")]
            some = v["UNIT_NUMBERS"][1:3] + v["TENS"][:2] + v["HUNDREDS"][:2] + v["BIG_POWERS_OF_TEN"][:2]
            for s in v["SKIP"] or []:
                ops.append(["parse", f" {s} ".join(some) + f" {s}", lang, 0])
                ops.append(["parse_number", f"{(v['TENS'] or v['ALL'])[0]} {s} {(v['UNIT_NUMBERS'] or v['ALL'])[-1]}", lang, 1])
            for w in (v["ALL"][1], v["ALL"][len(v["ALL"]) // 2], v["ALL"][-1]):
                ops.append(["parse_number", w, lang, 0])
                ops.append(["parse_ordinal", w, None, 0])
                ops.append(["parse", w.upper() + ". " + w, None, 0])
                ops.append(["parse_fraction", w + "/" + w, lang, 1])
        ops.append(["parse", " , ".join(ORDINALS), "en", 0])
        for o in ORDINALS[:8]:
            ops.append(["parse_ordinal", "one hundred and " + o, "en", 0])
        for sep in FRACTION:
            ops.append(["parse_fraction", "two" + sep + "five", "en", 0])
        first = {l: self.vocab[l]["ALL"][min(2, len(self.vocab[l]["ALL"]) - 1)] for l in SUPPORTED}
        for a in SUPPORTED:
            for b in SUPPORTED:
                if a != b:
                    ops.append(["parse", first[a] + " " + first[b], None, 0])
        ops += [["parse", "I have two hats and thirty seven coats", None, 0],
                ["parse_number", "two thousand and twenty", None, 0],
                ["parse_number", "not a number", None, 0],
                ["parse_number", "32", None, 0],
                ["parse_number", "two", "xx", 0],
                ["parse", "two", "fr", 1],
                ["parse", "", None, 0],
                ["parse_fraction", "nothing", None, 0]]
        seen, out = set(), []
        for o in ops:
            k = repr(o)
            if k not in seen:
                seen.add(k)
                out.append(o)
        return out
