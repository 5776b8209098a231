seed("null-args", "C12", "host.py", [('''        mi = method_identifier.value or 0
        if mi < 11:''', '''        mi = method_identifier.value or 0
        args = [a for a in args if a is not None]
        if mi < 11:''')], "a host call with a null argument, as prompting for a credential without a target", "the remaining arguments move up", r"""
from pypsrp.host import PSHost, PSHostUserInterface
from pypsrp.complex_objects import HostMethodIdentifier as HMI
got = []
class UI(PSHostUserInterface):
    def PromptForCredential1(self, runspace, pipeline, *args):
        got.append(args)
host = PSHost(None, None, False, None, None, UI(), "1.0")
outcome(lambda: host.run_method(HMI(value=24), ["caption", "message", None, "target"], None))
check(got == [("caption", "message", None, "target")], str(got))
""")
seed("black", "C12", "host.py", [('''        self.foreground_color = Color(value=color)''', '''        self.foreground_color = Color(value=color or self.foreground_color.value)''')],
 "the server sets the foreground colour to black (0)", "the colour set is not kept", r"""
from pypsrp.host import PSHostRawUserInterface
from pypsrp.complex_objects import Color
raw = PSHostRawUserInterface("w", 25, Color(value=7), Color(value=0), None, None, None, None, None, None)
for c in (3, 0, 15, 0):
    raw.SetForegroundColor(None, None, c)
    check(raw.GetForegroundColor(None, None).value == c, str(c))
""")
