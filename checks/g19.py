"""G19: unwanted languages."""
import base64
import email
from hypothesis import strategies as st
from harness.core import Facet, check, check_eq

PROPERTY = "G19"
RULE = ("cases are generated results of the language detection (languages with probabilities below, at and above the acceptable one; nothing detectable), settings of the three options and messages, and messages in known languages with the real detection; rule, score and tag are compared with the documented decision; "
        "non-trivial = a language is acceptable in probability and a list of languages is set")
ASSUMPTIONS = ["the first facet stands in for the results of the langdetect library; the second one uses it on sentences that it recognises with a probability over 0.99"]
LANGS = "af ar bg cs da de el en es fr he hu it ja ko pl pt ro ru sv tr uk vi zh-cn zh-tw".split()
PROBS = [0.0, 0.1, 0.2, 0.25, 0.3, 0.5, 0.6, 0.69, 0.7, 0.700001, 0.71, 0.9, 0.99, 1.0]
result = st.one_of(st.none(), st.lists(st.tuples(st.sampled_from(LANGS), st.sampled_from(PROBS)).map(list), max_size=6, unique_by=lambda x: x[0]), st.lists(st.tuples(st.sampled_from(LANGS), st.sampled_from(PROBS)).map(list), min_size=1, max_size=6, unique_by=lambda x: x[0]))
ok = st.one_of(st.none(), st.lists(st.sampled_from(LANGS + ["xx"]), min_size=1, max_size=5), st.lists(st.sampled_from(LANGS), min_size=6, max_size=16), st.tuples(st.sampled_from(LANGS), st.just("all")).map(list), st.just(["all"]))
options = st.fixed_dictionaries(dict(ok=ok, most=st.sampled_from([None, None, 1, 2, 3, 5]), prob=st.sampled_from([None, None, 0.0, 0.2, 0.25, 0.5, 0.7, 0.9, 0.99]), old=st.booleans(), lines=st.integers(0, 1)))
decisions_st = st.fixed_dictionaries(dict(options=options, results=st.lists(result, min_size=1, max_size=8)))


def config(o):
    conf = ["body UNWANTED eval:check_language()", "score UNWANTED 2.5", "body __AT /./", "add_header all Languages [_LANGUAGES_]"]
    if o["ok"]:
        conf.append("ok_languages " + " ".join(o["ok"]))
    if o["most"] is not None:
        conf.append("textcat_max_languages %d" % o["most"])
    if o["prob"] is not None:
        conf.append("textcat_acceptable_prob %s" % o["prob"])
    if o["old"]:
        conf += ["textcat_max_ngrams 300", "inactive_languages en", "textcat_acceptable_score 1.2", "textcat_optimal_ngrams 4"]
    return conf


def decide(o, langs):
    """langs: [[language, probability]] or None."""
    if langs is None:
        return False, None
    prob = 0.7 if o["prob"] is None else o["prob"]
    likely = [l for l, p in sorted(langs, key=lambda r: -r[1]) if p > prob]
    if len(likely) > (5 if o["most"] is None else o["most"]):
        return False, None
    accepted = o["ok"] or ["all"]
    return "all" not in accepted and any(l not in accepted for l in likely), likely


def judge(o, langs, r, **info):
    check(not r["exc"], "the scan fails", got=r["exc"], **info)
    want, likely = decide(o, langs)
    check_eq("UNWANTED" in r["tests"], want, "language is unwanted", options=o, **info)
    check_eq(r["score"], 2.5 if want else 0, "score", options=o, **info)
    if likely:
        check_eq(email.message_from_string(r["adjusted"])["X-Spam-Languages"], "[%s]" % " ".join(likely), "tag", options=o, **info)


def decisions_body(case, w, note):
    o = case["options"]
    msgs = []
    for i, res in enumerate(case["results"]):
        mark = "mark%dmark" % i
        if o["lines"]:
            raw = "Subject: x\nContent-Type: text/html; charset=utf-8\nContent-Transfer-Encoding: base64\n\n%s\n" % base64.b64encode(("<p>before</p> %s <b>after</b>" % mark).encode()).decode()
        else:
            raw = "Subject: x\n\nsome text\n%s\n" % mark
        msgs.append([raw, mark, res])
    got = w.call("lang.scan", dict(real=False, conf=config(o), msgs=msgs))["results"]
    for res, r in zip(case["results"], got):
        judge(o, res, r, found=res)
        note.nontrivial(bool(res) and bool(o["ok"]) and any(p > (0.7 if o["prob"] is None else o["prob"]) for l, p in res))


TEXTS = {
    "en": "The committee decided yesterday that the new library would be opened to the public before the end of the summer, although several members thought that the building was not ready yet.",
    "de": "Der Ausschuss hat gestern beschlossen, dass die neue Bibliothek noch vor dem Ende des Sommers geöffnet werden soll, obwohl einige Mitglieder der Meinung waren, dass das Gebäude noch nicht fertig sei.",
    "fr": "Le comité a décidé hier que la nouvelle bibliothèque serait ouverte au public avant la fin de l'été, bien que plusieurs membres aient pensé que le bâtiment n'était pas encore prêt.",
    "ro": "Comitetul a hotărât ieri că noua bibliotecă va fi deschisă publicului înainte de sfârșitul verii, deși mai mulți membri au crezut că această clădire încă nu este gata și că trebuie să mai așteptăm.",
    "hu": "A bizottság tegnap úgy döntött, hogy az új könyvtárat még a nyár vége előtt megnyitják a közönség számára, bár több tag szerint az épület még nincs kész.",
    "ru": "Комитет вчера решил, что новая библиотека будет открыта для публики до конца лета, хотя некоторые члены считали, что здание ещё не готово.",
    "el": "Η επιτροπή αποφάσισε χθες ότι η νέα βιβλιοθήκη θα ανοίξει για το κοινό πριν από το τέλος του καλοκαιριού, αν και αρκετά μέλη πίστευαν ότι το κτίριο δεν είναι ακόμη έτοιμο.",
    "ja": "委員会は昨日、新しい図書館を夏の終わりまでに一般に公開することを決めましたが、何人かの委員は建物がまだ準備できていないと考えていました。",
    "ko": "위원회는 어제 새로운 도서관을 여름이 끝나기 전에 일반인에게 공개하기로 결정했지만 몇몇 위원들은 건물이 아직 준비되지 않았다고 생각했습니다.",
}
texts_st = st.fixed_dictionaries(dict(options=options, texts=st.lists(st.tuples(st.sampled_from(sorted(TEXTS)), st.sampled_from(["plain", "html", "multi"]), st.integers(1, 3)).map(list), min_size=1, max_size=4)))


def texts_body(case, w, note):
    o = case["options"]
    msgs = []
    for lang, form, times in case["texts"]:
        text = "\n\n".join([TEXTS[lang]] * times)
        if form == "html":
            text = "<html><body><p>%s</p></body></html>" % text
        part = "Content-Type: text/%s; charset=utf-8\nContent-Transfer-Encoding: base64\n\n%s" % ("html" if form == "html" else "plain", base64.encodebytes(text.encode()).decode())
        if form == "multi":
            part = "Content-Type: multipart/mixed; boundary=bb\n\n--bb\n%s\n--bb\nContent-Type: image/png\nContent-Transfer-Encoding: base64\n\nAAAA\n--bb--\n" % part
        msgs.append(["Subject: x\nMIME-Version: 1.0\n" + part, "", None])
    got = w.call("lang.scan", dict(real=True, conf=config(o), msgs=msgs))["results"]
    for (lang, form, times), r in zip(case["texts"], got):
        judge(o, [[lang, 0.999]], r, language=lang, form=form)
        note.nontrivial(bool(o["ok"]) and "all" not in o["ok"])


FACETS = [Facet("decisions", decisions_st, decisions_body, 500), Facet("texts", texts_st, texts_body, 60)]
