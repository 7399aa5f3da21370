"""Reference for the values written to output files."""
from xml.sax.saxutils import escape

from terragraph_planner.common.configuration.enums import EnumParser


def value(self, data, digits_for_float, xml_output):
    v = data
    for attr_name in self.value.internal_name.split("."):
        v = getattr(v, attr_name, None)
        if v is None:
            break
    if v is None:
        text = "N/A"
    elif isinstance(v, float):
        text = round(v, digits_for_float)
    elif isinstance(v, EnumParser):
        text = v.to_string()
    else:
        text = v
    return self.value.output_name, escape(str(text)) if xml_output else text
