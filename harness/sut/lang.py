"""Language detection with given results."""
from sut import core


def scan(arg):
    """arg: conf, msgs: [[raw, mark, result]]: result is a list of [language, probability], or None when nothing can be detected."""
    import langdetect.detector
    import langdetect.language
    import langdetect.lang_detect_exception as lde
    cls = langdetect.detector.Detector
    texts = []
    if not arg["real"]:
        table = [(mark, result) for _, mark, result in arg["msgs"]]

        def append(self, text):
            texts.append(text)
            self.given = text

        def get_probabilities(self):
            for mark, result in table:
                if mark in self.given:
                    if result is not None:
                        return [langdetect.language.Language(l, p) for l, p in sorted(result, key=lambda r: -r[1])]
            raise lde.LangDetectException(lde.ErrorCode.CantDetectError, "No features in text.")
        cls.append = append
        cls.get_probabilities = get_probabilities
    ruleset = core.load([["main.cf", "loadplugin oa.plugins.textcat.TextCatPlugin\n" + "\n".join(arg["conf"]) + "\n"]])
    out = []
    for raw, _, _ in arg["msgs"]:
        r = core.scan_message(ruleset, raw, ["adjusted"])
        out.append(dict((k, r.get(k)) for k in ("tests", "adjusted", "exc", "score")))
    return {"results": out}
