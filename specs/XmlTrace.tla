------------------------------ MODULE XmlTrace ------------------------------
EXTENDS Xml, TraceCheck
InitOf(s) == {<<>>}
=============================================================================
