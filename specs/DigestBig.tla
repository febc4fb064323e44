----------------------------- MODULE DigestBig -----------------------------
(* Digests of n zero bytes, computed beforehand with another               *)
(* implementation: entry k is for the k-th length of Lengths (the last two *)
(* exceed 2^29 and 2^32 bytes, so that 32 bit totals cannot hold them).    *)
Lengths == <<"70000", "200003", "16777221", "536870915", "4294967303">>
Zeros1 ==
  <<<<79, 133, 103, 107, 119, 59, 54, 22, 102, 65, 96, 167, 10, 168, 127, 104,
      228, 165, 178, 178>>,
    <<86, 171, 34, 141, 243, 231, 20, 57, 102, 125, 249, 99, 192, 139, 144, 24,
      167, 52, 213, 181>>,
    <<103, 130, 0, 215, 47, 235, 98, 187, 103, 84, 159, 11, 246, 167, 53, 104,
      254, 26, 105, 53>>,
    <<178, 129, 52, 176, 66, 34, 12, 43, 20, 2, 12, 56, 90, 252, 226, 3,
      119, 133, 140, 242>>,
    <<117, 231, 181, 43, 151, 245, 226, 95, 104, 189, 201, 151, 78, 61, 125, 193,
      227, 201, 119, 141>>>>
Zeros224 ==
  <<<<156, 209, 119, 194, 215, 120, 63, 100, 178, 162, 14, 148, 180, 148, 146, 156,
      31, 63, 145, 214, 151, 227, 191, 142, 172, 102, 148, 191>>,
    <<251, 206, 160, 131, 143, 142, 100, 168, 97, 190, 252, 32, 238, 194, 181, 98,
      173, 174, 48, 230, 191, 143, 137, 59, 94, 187, 26, 167>>,
    <<107, 14, 195, 205, 177, 97, 252, 99, 190, 188, 103, 224, 154, 188, 101, 115,
      104, 102, 81, 20, 151, 242, 246, 128, 173, 196, 89, 193>>,
    <<155, 225, 249, 167, 124, 155, 200, 39, 233, 35, 243, 181, 241, 196, 71, 2,
      227, 41, 219, 89, 140, 150, 220, 90, 58, 84, 136, 185>>,
    <<194, 178, 71, 102, 168, 10, 107, 111, 104, 67, 25, 15, 10, 254, 174, 30,
      128, 173, 168, 206, 231, 161, 93, 249, 101, 171, 199, 122>>>>
Zeros256 ==
  <<<<245, 27, 39, 153, 3, 3, 123, 55, 234, 24, 40, 161, 2, 20, 153, 153,
      87, 24, 211, 128, 22, 202, 214, 192, 218, 48, 150, 42, 65, 190, 5, 47>>,
    <<103, 77, 192, 165, 96, 204, 162, 64, 229, 197, 73, 173, 127, 234, 158, 204,
      132, 184, 75, 206, 248, 63, 63, 110, 129, 88, 83, 154, 255, 201, 157, 212>>,
    <<17, 49, 118, 110, 15, 103, 233, 111, 175, 122, 100, 225, 206, 181, 158, 54,
      228, 75, 146, 145, 230, 142, 157, 197, 199, 98, 45, 116, 148, 182, 4, 59>>,
    <<64, 58, 149, 81, 131, 216, 59, 211, 123, 211, 29, 222, 116, 235, 59, 113,
      63, 207, 153, 182, 186, 26, 135, 250, 145, 170, 91, 239, 228, 245, 18, 128>>,
    <<139, 252, 2, 137, 67, 198, 205, 141, 67, 229, 79, 155, 145, 195, 128, 224,
      206, 67, 238, 164, 181, 76, 76, 86, 123, 51, 6, 147, 133, 194, 199, 185>>>>
Zeros384 ==
  <<<<69, 190, 177, 100, 248, 217, 48, 232, 41, 204, 112, 222, 60, 1, 5, 1,
      196, 14, 11, 248, 134, 97, 192, 32, 212, 72, 48, 21, 128, 190, 105, 86,
      30, 92, 10, 143, 154, 96, 202, 243, 24, 110, 241, 205, 134, 114, 125, 127>>,
    <<104, 38, 222, 232, 225, 114, 246, 199, 254, 225, 125, 255, 227, 16, 180, 190,
      36, 136, 244, 57, 180, 64, 27, 176, 235, 140, 243, 232, 56, 214, 218, 77,
      158, 227, 232, 230, 128, 248, 222, 140, 186, 89, 177, 3, 211, 77, 185, 151>>,
    <<28, 40, 214, 184, 157, 52, 153, 250, 130, 209, 54, 44, 251, 83, 156, 51,
      162, 184, 192, 133, 203, 247, 145, 62, 5, 7, 192, 220, 33, 220, 141, 249,
      47, 142, 208, 76, 112, 224, 255, 29, 247, 218, 0, 72, 72, 64, 240, 170>>,
    <<164, 23, 230, 171, 107, 152, 76, 77, 166, 231, 46, 158, 51, 135, 98, 175,
      249, 27, 228, 208, 26, 64, 7, 97, 65, 99, 168, 231, 207, 144, 98, 208,
      133, 57, 90, 254, 60, 245, 55, 209, 152, 252, 8, 224, 97, 199, 176, 194>>,
    <<82, 232, 175, 240, 47, 117, 226, 68, 219, 133, 169, 224, 161, 89, 74, 217,
      94, 247, 174, 212, 173, 115, 100, 42, 156, 22, 169, 254, 45, 198, 200, 240,
      114, 146, 118, 236, 90, 180, 26, 197, 30, 211, 100, 72, 1, 108, 129, 112>>>>
Zeros512 ==
  <<<<118, 91, 29, 149, 177, 59, 230, 22, 52, 182, 142, 34, 66, 35, 216, 74,
      178, 44, 9, 196, 246, 61, 97, 191, 51, 210, 86, 166, 145, 146, 32, 72,
      136, 218, 82, 197, 25, 185, 87, 249, 218, 223, 181, 241, 39, 212, 159, 59,
      235, 221, 178, 1, 64, 215, 36, 204, 122, 17, 111, 114, 26, 76, 209, 132>>,
    <<155, 159, 218, 172, 38, 97, 214, 96, 223, 66, 89, 167, 10, 198, 233, 204,
      177, 19, 223, 122, 233, 202, 70, 32, 245, 16, 143, 47, 64, 193, 181, 222,
      214, 14, 161, 187, 220, 218, 251, 178, 144, 112, 73, 30, 39, 55, 242, 101,
      24, 90, 18, 231, 222, 54, 92, 149, 207, 168, 101, 48, 157, 75, 149, 196>>,
    <<139, 83, 204, 137, 177, 49, 128, 62, 201, 72, 121, 232, 97, 27, 117, 193,
      40, 252, 26, 172, 234, 145, 214, 48, 182, 104, 12, 46, 90, 135, 221, 67,
      210, 87, 19, 161, 80, 160, 199, 5, 117, 23, 92, 20, 192, 242, 207, 18,
      227, 208, 183, 226, 217, 93, 164, 216, 11, 61, 19, 222, 142, 195, 158, 39>>,
    <<59, 175, 232, 190, 122, 212, 111, 109, 132, 244, 127, 77, 29, 169, 167, 43,
      88, 252, 1, 51, 43, 100, 68, 68, 69, 111, 1, 230, 189, 99, 47, 167,
      231, 210, 184, 232, 17, 51, 204, 182, 65, 247, 28, 80, 50, 4, 177, 189,
      95, 246, 187, 53, 65, 7, 9, 229, 73, 59, 205, 22, 236, 151, 128, 102>>,
    <<115, 188, 188, 95, 131, 151, 190, 48, 223, 60, 31, 114, 208, 2, 81, 1,
      93, 88, 137, 8, 105, 1, 68, 134, 119, 4, 53, 183, 157, 112, 44, 204,
      199, 52, 39, 154, 138, 160, 86, 243, 145, 97, 171, 119, 166, 46, 97, 158,
      146, 226, 106, 138, 218, 148, 255, 57, 189, 27, 32, 89, 170, 254, 229, 53>>>>
ZeroDigest(alg, k) == (CASE alg = 1 -> Zeros1 [] alg = 224 -> Zeros224 [] alg = 256 -> Zeros256
                       [] alg = 384 -> Zeros384 [] OTHER -> Zeros512)[k]
=============================================================================
