------------------------------- MODULE CsvTrace -------------------------------
EXTENDS Csv, TraceCheck
InitOf(s) == {InitCsv(s.cfg.sep, s.cfg.limit)}
=============================================================================
