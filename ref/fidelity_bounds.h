// Lower bounds of the SNR (dB) of the decoded signal, for 5 frame sizes in geometric progression, measured with a margin of 5 dB
// (15 dB where the distribution is wide : short frames at high rates, where the largest lines are limited by the arithmetic coding)
struct FidBound { int hr, dt_us, sr_hz; float snr[2][5]; };
static const FidBound fid_bounds[] = {
  { 0, 2500, 8000, { { 2, 3, 74, 74, 74 }, { 4, 21, 33, 33, 33 } } },
  { 0, 2500, 16000, { { -8, 6, 50, 74, 74 }, { -7, 17, 49, 50, 49 } } },
  { 0, 2500, 24000, { { -8, -1, 23, 73, 73 }, { -8, 3, 32, 54, 54 } } },
  { 0, 2500, 32000, { { -8, -3, 6, 66, 71 }, { -8, 0, 23, 67, 67 } } },
  { 0, 2500, 48000, { { -8, -5, 1, 45, 65 }, { -8, -8, -8, -8, -8 } } },
  { 0, 5000, 8000, { { -8, 14, 51, 74, 74 }, { -7, 19, 42, 43, 43 } } },
  { 0, 5000, 16000, { { -8, -2, 24, 66, 73 }, { -8, 1, 27, 65, 66 } } },
  { 0, 5000, 24000, { { -8, -7, 8, 38, 73 }, { -8, -6, 14, 42, 68 } } },
  { 0, 5000, 32000, { { -8, -8, 1, 29, 71 }, { -8, -8, 6, 32, 69 } } },
  { 0, 5000, 48000, { { -8, -8, -2, 21, 52 }, { -8, -8, -8, -8, -8 } } },
  { 0, 7500, 8000, { { -2, 16, 44, 74, 74 }, { -1, 18, 45, 63, 63 } } },
  { 0, 7500, 16000, { { -8, 3, 21, 48, 72 }, { -8, 4, 24, 51, 69 } } },
  { 0, 7500, 24000, { { -8, -2, 11, 35, 67 }, { -8, -1, 12, 38, 69 } } },
  { 0, 7500, 32000, { { -8, -3, 7, 25, 54 }, { -8, -2, 8, 28, 59 } } },
  { 0, 7500, 48000, { { -8, -4, 5, 18, 47 }, { -8, -8, -8, -8, -8 } } },
  { 0, 10000, 8000, { { -4, 10, 34, 67, 74 }, { -4, 11, 36, 58, 57 } } },
  { 0, 10000, 16000, { { -8, 0, 14, 38, 71 }, { -8, 1, 15, 41, 67 } } },
  { 0, 10000, 24000, { { -8, -3, 7, 25, 54 }, { -8, -2, 8, 28, 57 } } },
  { 0, 10000, 32000, { { -8, -4, 4, 17, 44 }, { -8, -4, 5, 19, 47 } } },
  { 0, 10000, 48000, { { -8, -5, 3, 13, 37 }, { -8, -8, -8, -8, -8 } } },
  { 1, 2500, 48000, { { 7, 15, 28, 44, 56 }, { 9, 18, 32, 47, 59 } } },
  { 1, 2500, 96000, { { 3, 6, 10, 20, 30 }, { -8, -8, -8, -8, -8 } } },
  { 1, 5000, 48000, { { 7, 15, 25, 40, 54 }, { 8, 17, 29, 43, 58 } } },
  { 1, 5000, 96000, { { 6, 9, 13, 19, 31 }, { -8, -8, -8, -8, -8 } } },
  { 1, 10000, 48000, { { 9, 15, 24, 37, 46 }, { 10, 17, 27, 40, 53 } } },
  { 1, 10000, 96000, { { 8, 12, 15, 22, 30 }, { -8, -8, -8, -8, -8 } } },
};
