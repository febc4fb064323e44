----------------------------- MODULE StreamTrace -----------------------------
EXTENDS Stream, TraceCheck
InitOf(s) == {InitStream(s.cfg.kind, s.cfg.data, s.cfg.kindO, s.cfg.content, s.cfg.cap)}
=============================================================================
