---------------------------- MODULE WaveletTrace ----------------------------
EXTENDS Wavelet, TraceCheck
InitOf(s) == {InitW}
=============================================================================
