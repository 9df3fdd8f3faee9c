"""Types of the few attributes / parameters whose type cannot be read off an
assignment (confirmed by reading the code; one line of reason each)."""
from .absint import T, listof

LINE = T("BaseCfgLine")
SEEDS = {
    "attr": {
        # declared in BaseCfgLine.__init__ / bootstrap: links between lines
        ("BaseCfgLine", "children"): listof(LINE),
        ("BaseCfgLine", "parent"): LINE,
        ("BaseCfgLine", "confobj"): T("ConfigList", "CiscoConfParse"),
        ("BaseCfgLine", "linenum"): T("int"),
        ("BaseCfgLine", "_text"): T("str"),
        ("BaseCfgLine", "_parent"): LINE,
        ("CiscoConfParse", "ConfigObjs"): T("ConfigList"),
        ("ConfigList", "_list"): listof(LINE),
        ("ConfigList", "CiscoConfParse"): T("CiscoConfParse"),
    },
    "attrname": {
        "text": T("str"),
        "children": listof(LINE),
        "all_children": listof(LINE),
        "parent": LINE,
        "linenum": T("int"),
    },
    "elem": {
        "ConfigList": LINE,
    },
}
