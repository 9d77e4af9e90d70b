"""A plugin with a rule that matches a word of the X-Keys header."""
import oa.plugins.base


class Keys(oa.plugins.base.BasePlugin):
    eval_rules = ("check_keys",)

    def check_keys(self, msg, word, target=None):
        return word in (msg.msg["X-Keys"] or "").split()
