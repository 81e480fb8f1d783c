// Hand-written EBML codec and Matroska/WebM schema, written from the format
// specification and sharing no code with the library under test.
#ifndef VERIF_EBML_H_
#define VERIF_EBML_H_
#include "util.h"

namespace vf {

const uint64_t kUnknown = ~0ULL;

// ---------------------------------------------------------------- coding
inline int IdLen(uint32_t id) { return id > 0xFFFFFF ? 4 : id > 0xFFFF ? 3 : id > 0xFF ? 2 : 1; }
inline void PutId(Bytes* o, uint32_t id) {
  for (int i = IdLen(id) - 1; i >= 0; --i) o->push_back((char)(id >> (8 * i)));
}
inline int SizeLen(uint64_t v) {  // minimal width of a data size (all-ones reserved)
  int n = 1;
  while (n < 8 && v >= (1ULL << (7 * n)) - 1) ++n;
  return n;
}
inline void PutSize(Bytes* o, uint64_t v, int len) {
  uint64_t x = v | (1ULL << (7 * len));
  for (int i = len - 1; i >= 0; --i) o->push_back((char)(x >> (8 * i)));
}
inline void PutUnknownSize(Bytes* o, int len) {
  PutSize(o, (1ULL << (7 * len)) - 1, len);
}
inline int UIntLen(uint64_t v) { int n = 1; while (n < 8 && (v >> (8 * n))) ++n; return n; }
inline Bytes UIntBytes(uint64_t v, int len) {
  Bytes b;
  for (int i = len - 1; i >= 0; --i) b.push_back((char)(v >> (8 * i)));
  return b;
}
inline int IntLen(int64_t v) {
  int n = 1;
  while (n < 8 && (v < -(1LL << (8 * n - 1)) || v > (1LL << (8 * n - 1)) - 1)) ++n;
  return n;
}
inline Bytes F64(double d) { uint64_t u; memcpy(&u, &d, 8); return UIntBytes(u, 8); }
inline Bytes F32(float d) { uint32_t u; memcpy(&u, &d, 4); return UIntBytes(u, 4); }

// ---------------------------------------------------------------- schema
enum : uint32_t {
  ID_EBML = 0x1A45DFA3, ID_EBMLVersion = 0x4286, ID_EBMLReadVersion = 0x42F7, ID_EBMLMaxIDLength = 0x42F2,
  ID_EBMLMaxSizeLength = 0x42F3, ID_DocType = 0x4282, ID_DocTypeVersion = 0x4287, ID_DocTypeReadVersion = 0x4285,
  ID_Void = 0xEC, ID_CRC32 = 0xBF, ID_Segment = 0x18538067, ID_SeekHead = 0x114D9B74, ID_Seek = 0x4DBB, ID_SeekID = 0x53AB,
  ID_SeekPosition = 0x53AC, ID_Info = 0x1549A966, ID_TimecodeScale = 0x2AD7B1, ID_Duration = 0x4489, ID_DateUTC = 0x4461,
  ID_Title = 0x7BA9, ID_MuxingApp = 0x4D80, ID_WritingApp = 0x5741, ID_Cluster = 0x1F43B675, ID_Timecode = 0xE7,
  ID_PrevSize = 0xAB, ID_SimpleBlock = 0xA3, ID_BlockGroup = 0xA0, ID_Block = 0xA1, ID_BlockVirtual = 0xA2,
  ID_BlockAdditions = 0x75A1, ID_BlockMore = 0xA6, ID_BlockAddID = 0xEE, ID_BlockAdditional = 0xA5, ID_BlockDuration = 0x9B,
  ID_ReferenceBlock = 0xFB, ID_DiscardPadding = 0x75A2, ID_Slices = 0x8E, ID_TimeSlice = 0xE8, ID_LaceNumber = 0xCC,
  ID_Tracks = 0x1654AE6B, ID_TrackEntry = 0xAE, ID_TrackNumber = 0xD7, ID_TrackUID = 0x73C5, ID_TrackType = 0x83,
  ID_FlagEnabled = 0xB9, ID_FlagDefault = 0x88, ID_FlagForced = 0x55AA, ID_FlagLacing = 0x9C, ID_DefaultDuration = 0x23E383,
  ID_Name = 0x536E, ID_Language = 0x22B59C, ID_CodecID = 0x86, ID_CodecPrivate = 0x63A2, ID_CodecName = 0x258688,
  ID_CodecDelay = 0x56AA, ID_SeekPreRoll = 0x56BB, ID_MaxBlockAdditionID = 0x55EE, ID_Video = 0xE0, ID_FlagInterlaced = 0x9A, ID_StereoMode = 0x53B8,
  ID_AlphaMode = 0x53C0, ID_PixelWidth = 0xB0, ID_PixelHeight = 0xBA, ID_PixelCropBottom = 0x54AA, ID_PixelCropTop = 0x54BB,
  ID_PixelCropLeft = 0x54CC, ID_PixelCropRight = 0x54DD, ID_DisplayWidth = 0x54B0, ID_DisplayHeight = 0x54BA, ID_DisplayUnit = 0x54B2,
  ID_AspectRatioType = 0x54B3, ID_FrameRate = 0x2383E3, ID_ColourSpace = 0x2EB524, ID_Colour = 0x55B0, ID_MatrixCoefficients = 0x55B1,
  ID_BitsPerChannel = 0x55B2, ID_ChromaSubsamplingHorz = 0x55B3, ID_ChromaSubsamplingVert = 0x55B4, ID_CbSubsamplingHorz = 0x55B5,
  ID_CbSubsamplingVert = 0x55B6, ID_ChromaSitingHorz = 0x55B7, ID_ChromaSitingVert = 0x55B8, ID_Range = 0x55B9,
  ID_TransferCharacteristics = 0x55BA, ID_Primaries = 0x55BB, ID_MaxCLL = 0x55BC, ID_MaxFALL = 0x55BD, ID_MasteringMetadata = 0x55D0,
  ID_PrimaryRX = 0x55D1, ID_PrimaryRY = 0x55D2, ID_PrimaryGX = 0x55D3, ID_PrimaryGY = 0x55D4, ID_PrimaryBX = 0x55D5,
  ID_PrimaryBY = 0x55D6, ID_WhitePointX = 0x55D7, ID_WhitePointY = 0x55D8, ID_LuminanceMax = 0x55D9, ID_LuminanceMin = 0x55DA,
  ID_Projection = 0x7670, ID_ProjectionType = 0x7671, ID_ProjectionPrivate = 0x7672, ID_PoseYaw = 0x7673, ID_PosePitch = 0x7674,
  ID_PoseRoll = 0x7675, ID_Audio = 0xE1, ID_SamplingFrequency = 0xB5, ID_OutputSamplingFrequency = 0x78B5, ID_Channels = 0x9F,
  ID_BitDepth = 0x6264, ID_ContentEncodings = 0x6D80, ID_ContentEncoding = 0x6240, ID_ContentEncodingOrder = 0x5031,
  ID_ContentEncodingScope = 0x5032, ID_ContentEncodingType = 0x5033, ID_ContentCompression = 0x5034, ID_ContentCompAlgo = 0x4254,
  ID_ContentCompSettings = 0x4255, ID_ContentEncryption = 0x5035, ID_ContentEncAlgo = 0x47E1,
  ID_ContentEncKeyID = 0x47E2, ID_ContentSignature = 0x47E3, ID_ContentSigKeyID = 0x47E4, ID_ContentSigAlgo = 0x47E5,
  ID_ContentSigHashAlgo = 0x47E6, ID_ContentEncAESSettings = 0x47E7, ID_AESSettingsCipherMode = 0x47E8, ID_Cues = 0x1C53BB6B,
  ID_CuePoint = 0xBB, ID_CueTime = 0xB3, ID_CueTrackPositions = 0xB7, ID_CueTrack = 0xF7, ID_CueClusterPosition = 0xF1,
  ID_CueRelativePosition = 0xF0, ID_CueDuration = 0xB2, ID_CueBlockNumber = 0x5378, ID_Chapters = 0x1043A770, ID_EditionEntry = 0x45B9,
  ID_ChapterAtom = 0xB6, ID_ChapterUID = 0x73C4, ID_ChapterStringUID = 0x5654, ID_ChapterTimeStart = 0x91, ID_ChapterTimeEnd = 0x92,
  ID_ChapterDisplay = 0x80, ID_ChapString = 0x85, ID_ChapLanguage = 0x437C, ID_ChapCountry = 0x437E, ID_Tags = 0x1254C367,
  ID_Tag = 0x7373, ID_Targets = 0x63C0, ID_TargetTypeValue = 0x68CA, ID_TargetType = 0x63CA, ID_TagTrackUID = 0x63C5,
  ID_SimpleTag = 0x67C8, ID_TagName = 0x45A3, ID_TagLanguage = 0x447A, ID_TagDefault = 0x4484, ID_TagString = 0x4487,
  ID_TagBinary = 0x4485,
};

// type: M master, U unsigned, I signed, F float, S string, D date, B binary,
//       O boolean (0/1), X element id, K block
struct El {
  uint32_t id, parent;
  const char* name;
  char type;
  bool many;        // may occur several times in one parent
  bool must;        // must be present in a file the muxer writes
  const char* def;  // documented default as text ("" for none)
  uint64_t lo, hi;  // legal range of unsigned values
  bool core;        // part of the WebM subset the streaming parser knows
};

inline const std::vector<El>& Schema() {
  const uint64_t X = ~0ULL;
  static const std::vector<El> t = {
      {ID_EBML, 0, "EBML", 'M', true, true, "", 0, X, true},
      {ID_EBMLVersion, ID_EBML, "EBMLVersion", 'U', false, false, "1", 1, X, true},
      {ID_EBMLReadVersion, ID_EBML, "EBMLReadVersion", 'U', false, false, "1", 1, X, true},
      {ID_EBMLMaxIDLength, ID_EBML, "EBMLMaxIDLength", 'U', false, false, "4", 4, X, true},
      {ID_EBMLMaxSizeLength, ID_EBML, "EBMLMaxSizeLength", 'U', false, false, "8", 1, 8, true},
      {ID_DocType, ID_EBML, "DocType", 'S', false, true, "matroska", 0, X, true},
      {ID_DocTypeVersion, ID_EBML, "DocTypeVersion", 'U', false, true, "1", 1, X, true},
      {ID_DocTypeReadVersion, ID_EBML, "DocTypeReadVersion", 'U', false, true, "1", 1, X, true},
      {ID_Segment, 0, "Segment", 'M', true, true, "", 0, X, true},
      {ID_SeekHead, ID_Segment, "SeekHead", 'M', true, false, "", 0, X, true},
      {ID_Seek, ID_SeekHead, "Seek", 'M', true, false, "", 0, X, true},
      {ID_SeekID, ID_Seek, "SeekID", 'X', false, true, "", 0, X, true},
      {ID_SeekPosition, ID_Seek, "SeekPosition", 'U', false, true, "", 0, X, true},
      {ID_Info, ID_Segment, "Info", 'M', false, true, "", 0, X, true},
      {ID_TimecodeScale, ID_Info, "TimecodeScale", 'U', false, false, "1000000", 1, X, true},
      {ID_Duration, ID_Info, "Duration", 'F', false, false, "", 0, X, true},
      {ID_DateUTC, ID_Info, "DateUTC", 'D', false, false, "", 0, X, true},
      {ID_Title, ID_Info, "Title", 'S', false, false, "", 0, X, true},
      {ID_MuxingApp, ID_Info, "MuxingApp", 'S', false, true, "", 0, X, true},
      {ID_WritingApp, ID_Info, "WritingApp", 'S', false, true, "", 0, X, true},
      {ID_Cluster, ID_Segment, "Cluster", 'M', true, false, "", 0, X, true},
      {ID_Timecode, ID_Cluster, "Timecode", 'U', false, true, "", 0, X, true},
      {ID_PrevSize, ID_Cluster, "PrevSize", 'U', false, false, "", 0, X, true},
      {ID_SimpleBlock, ID_Cluster, "SimpleBlock", 'K', true, false, "", 0, X, true},
      {ID_BlockGroup, ID_Cluster, "BlockGroup", 'M', true, false, "", 0, X, true},
      {ID_Block, ID_BlockGroup, "Block", 'K', false, true, "", 0, X, true},
      {ID_BlockVirtual, ID_BlockGroup, "BlockVirtual", 'K', false, false, "", 0, X, true},
      {ID_BlockAdditions, ID_BlockGroup, "BlockAdditions", 'M', false, false, "", 0, X, true},
      {ID_BlockMore, ID_BlockAdditions, "BlockMore", 'M', true, true, "", 0, X, true},
      {ID_BlockAddID, ID_BlockMore, "BlockAddID", 'U', false, false, "1", 1, X, true},
      {ID_BlockAdditional, ID_BlockMore, "BlockAdditional", 'B', false, true, "", 0, X, true},
      {ID_BlockDuration, ID_BlockGroup, "BlockDuration", 'U', false, false, "", 0, X, true},
      {ID_ReferenceBlock, ID_BlockGroup, "ReferenceBlock", 'I', true, false, "", 0, X, true},
      {ID_DiscardPadding, ID_BlockGroup, "DiscardPadding", 'I', false, false, "", 0, X, true},
      {ID_Slices, ID_BlockGroup, "Slices", 'M', false, false, "", 0, X, true},
      {ID_TimeSlice, ID_Slices, "TimeSlice", 'M', true, false, "", 0, X, true},
      {ID_LaceNumber, ID_TimeSlice, "LaceNumber", 'U', false, false, "", 0, X, true},
      {ID_Tracks, ID_Segment, "Tracks", 'M', false, true, "", 0, X, true},
      {ID_TrackEntry, ID_Tracks, "TrackEntry", 'M', true, true, "", 0, X, true},
      {ID_TrackNumber, ID_TrackEntry, "TrackNumber", 'U', false, true, "", 1, X, true},
      {ID_TrackUID, ID_TrackEntry, "TrackUID", 'U', false, true, "", 1, X, true},
      {ID_TrackType, ID_TrackEntry, "TrackType", 'U', false, true, "", 1, 254, true},
      {ID_FlagEnabled, ID_TrackEntry, "FlagEnabled", 'O', false, false, "1", 0, 1, true},
      {ID_FlagDefault, ID_TrackEntry, "FlagDefault", 'O', false, false, "1", 0, 1, true},
      {ID_FlagForced, ID_TrackEntry, "FlagForced", 'O', false, false, "0", 0, 1, true},
      {ID_FlagLacing, ID_TrackEntry, "FlagLacing", 'O', false, false, "1", 0, 1, true},
      {ID_DefaultDuration, ID_TrackEntry, "DefaultDuration", 'U', false, false, "", 1, X, true},
      {ID_Name, ID_TrackEntry, "Name", 'S', false, false, "", 0, X, true},
      {ID_Language, ID_TrackEntry, "Language", 'S', false, false, "eng", 0, X, true},
      {ID_CodecID, ID_TrackEntry, "CodecID", 'S', false, true, "", 0, X, true},
      {ID_CodecPrivate, ID_TrackEntry, "CodecPrivate", 'B', false, false, "", 0, X, true},
      {ID_CodecName, ID_TrackEntry, "CodecName", 'S', false, false, "", 0, X, true},
      {ID_CodecDelay, ID_TrackEntry, "CodecDelay", 'U', false, false, "0", 0, X, true},
      {ID_SeekPreRoll, ID_TrackEntry, "SeekPreRoll", 'U', false, false, "0", 0, X, true},
      {ID_MaxBlockAdditionID, ID_TrackEntry, "MaxBlockAdditionID", 'U', false, false, "0", 0, X, false},
      {ID_Video, ID_TrackEntry, "Video", 'M', false, false, "", 0, X, true},
      {ID_FlagInterlaced, ID_Video, "FlagInterlaced", 'U', false, false, "0", 0, 2, true},
      {ID_StereoMode, ID_Video, "StereoMode", 'U', false, false, "0", 0, 15, true},
      {ID_AlphaMode, ID_Video, "AlphaMode", 'U', false, false, "0", 0, X, true},
      {ID_PixelWidth, ID_Video, "PixelWidth", 'U', false, true, "", 1, X, true},
      {ID_PixelHeight, ID_Video, "PixelHeight", 'U', false, true, "", 1, X, true},
      {ID_PixelCropBottom, ID_Video, "PixelCropBottom", 'U', false, false, "0", 0, X, true},
      {ID_PixelCropTop, ID_Video, "PixelCropTop", 'U', false, false, "0", 0, X, true},
      {ID_PixelCropLeft, ID_Video, "PixelCropLeft", 'U', false, false, "0", 0, X, true},
      {ID_PixelCropRight, ID_Video, "PixelCropRight", 'U', false, false, "0", 0, X, true},
      {ID_DisplayWidth, ID_Video, "DisplayWidth", 'U', false, false, "", 1, X, true},
      {ID_DisplayHeight, ID_Video, "DisplayHeight", 'U', false, false, "", 1, X, true},
      {ID_DisplayUnit, ID_Video, "DisplayUnit", 'U', false, false, "0", 0, 4, true},
      {ID_AspectRatioType, ID_Video, "AspectRatioType", 'U', false, false, "0", 0, 2, true},
      {ID_FrameRate, ID_Video, "FrameRate", 'F', false, false, "", 0, X, true},
      {ID_ColourSpace, ID_Video, "ColourSpace", 'S', false, false, "", 0, X, false},
      {ID_Colour, ID_Video, "Colour", 'M', false, false, "", 0, X, true},
      {ID_MatrixCoefficients, ID_Colour, "MatrixCoefficients", 'U', false, false, "2", 0, 14, true},
      {ID_BitsPerChannel, ID_Colour, "BitsPerChannel", 'U', false, false, "0", 0, X, true},
      {ID_ChromaSubsamplingHorz, ID_Colour, "ChromaSubsamplingHorz", 'U', false, false, "", 0, X, true},
      {ID_ChromaSubsamplingVert, ID_Colour, "ChromaSubsamplingVert", 'U', false, false, "", 0, X, true},
      {ID_CbSubsamplingHorz, ID_Colour, "CbSubsamplingHorz", 'U', false, false, "", 0, X, true},
      {ID_CbSubsamplingVert, ID_Colour, "CbSubsamplingVert", 'U', false, false, "", 0, X, true},
      {ID_ChromaSitingHorz, ID_Colour, "ChromaSitingHorz", 'U', false, false, "0", 0, 2, true},
      {ID_ChromaSitingVert, ID_Colour, "ChromaSitingVert", 'U', false, false, "0", 0, 2, true},
      {ID_Range, ID_Colour, "Range", 'U', false, false, "0", 0, 3, true},
      {ID_TransferCharacteristics, ID_Colour, "TransferCharacteristics", 'U', false, false, "2", 0, 18, true},
      {ID_Primaries, ID_Colour, "Primaries", 'U', false, false, "2", 0, 22, true},
      {ID_MaxCLL, ID_Colour, "MaxCLL", 'U', false, false, "", 0, X, true},
      {ID_MaxFALL, ID_Colour, "MaxFALL", 'U', false, false, "", 0, X, true},
      {ID_MasteringMetadata, ID_Colour, "MasteringMetadata", 'M', false, false, "", 0, X, true},
      {ID_PrimaryRX, ID_MasteringMetadata, "PrimaryRX", 'F', false, false, "", 0, X, true},
      {ID_PrimaryRY, ID_MasteringMetadata, "PrimaryRY", 'F', false, false, "", 0, X, true},
      {ID_PrimaryGX, ID_MasteringMetadata, "PrimaryGX", 'F', false, false, "", 0, X, true},
      {ID_PrimaryGY, ID_MasteringMetadata, "PrimaryGY", 'F', false, false, "", 0, X, true},
      {ID_PrimaryBX, ID_MasteringMetadata, "PrimaryBX", 'F', false, false, "", 0, X, true},
      {ID_PrimaryBY, ID_MasteringMetadata, "PrimaryBY", 'F', false, false, "", 0, X, true},
      {ID_WhitePointX, ID_MasteringMetadata, "WhitePointX", 'F', false, false, "", 0, X, true},
      {ID_WhitePointY, ID_MasteringMetadata, "WhitePointY", 'F', false, false, "", 0, X, true},
      {ID_LuminanceMax, ID_MasteringMetadata, "LuminanceMax", 'F', false, false, "", 0, X, true},
      {ID_LuminanceMin, ID_MasteringMetadata, "LuminanceMin", 'F', false, false, "", 0, X, true},
      {ID_Projection, ID_Video, "Projection", 'M', false, false, "", 0, X, true},
      {ID_ProjectionType, ID_Projection, "ProjectionType", 'U', false, true, "", 0, 3, true},
      {ID_ProjectionPrivate, ID_Projection, "ProjectionPrivate", 'B', false, false, "", 0, X, true},
      {ID_PoseYaw, ID_Projection, "PoseYaw", 'F', false, false, "", 0, X, true},
      {ID_PosePitch, ID_Projection, "PosePitch", 'F', false, false, "", 0, X, true},
      {ID_PoseRoll, ID_Projection, "PoseRoll", 'F', false, false, "", 0, X, true},
      {ID_Audio, ID_TrackEntry, "Audio", 'M', false, false, "", 0, X, true},
      {ID_SamplingFrequency, ID_Audio, "SamplingFrequency", 'F', false, false, "8000", 0, X, true},
      {ID_OutputSamplingFrequency, ID_Audio, "OutputSamplingFrequency", 'F', false, false, "", 0, X, true},
      {ID_Channels, ID_Audio, "Channels", 'U', false, false, "1", 1, X, true},
      {ID_BitDepth, ID_Audio, "BitDepth", 'U', false, false, "", 1, X, true},
      {ID_ContentEncodings, ID_TrackEntry, "ContentEncodings", 'M', false, false, "", 0, X, true},
      {ID_ContentEncoding, ID_ContentEncodings, "ContentEncoding", 'M', true, true, "", 0, X, true},
      {ID_ContentEncodingOrder, ID_ContentEncoding, "ContentEncodingOrder", 'U', false, false, "0", 0, X, true},
      {ID_ContentEncodingScope, ID_ContentEncoding, "ContentEncodingScope", 'U', false, false, "1", 1, 7, true},
      {ID_ContentEncodingType, ID_ContentEncoding, "ContentEncodingType", 'U', false, false, "0", 0, 1, true},
      {ID_ContentCompression, ID_ContentEncoding, "ContentCompression", 'M', false, false, "", 0, X, false},
      {ID_ContentCompAlgo, ID_ContentCompression, "ContentCompAlgo", 'U', false, false, "0", 0, 3, false},
      {ID_ContentCompSettings, ID_ContentCompression, "ContentCompSettings", 'B', false, false, "", 0, X, false},
      {ID_ContentEncryption, ID_ContentEncoding, "ContentEncryption", 'M', false, false, "", 0, X, true},
      {ID_ContentEncAlgo, ID_ContentEncryption, "ContentEncAlgo", 'U', false, false, "0", 0, 5, true},
      {ID_ContentEncKeyID, ID_ContentEncryption, "ContentEncKeyID", 'B', false, false, "", 0, X, true},
      {ID_ContentSignature, ID_ContentEncryption, "ContentSignature", 'B', false, false, "", 0, X, false},
      {ID_ContentSigKeyID, ID_ContentEncryption, "ContentSigKeyID", 'B', false, false, "", 0, X, false},
      {ID_ContentSigAlgo, ID_ContentEncryption, "ContentSigAlgo", 'U', false, false, "0", 0, 1, false},
      {ID_ContentSigHashAlgo, ID_ContentEncryption, "ContentSigHashAlgo", 'U', false, false, "0", 0, 2, false},
      {ID_ContentEncAESSettings, ID_ContentEncryption, "ContentEncAESSettings", 'M', false, false, "", 0, X, true},
      {ID_AESSettingsCipherMode, ID_ContentEncAESSettings, "AESSettingsCipherMode", 'U', false, true, "1", 1, 2, true},
      {ID_Cues, ID_Segment, "Cues", 'M', false, false, "", 0, X, true},
      {ID_CuePoint, ID_Cues, "CuePoint", 'M', true, false, "", 0, X, true},
      {ID_CueTime, ID_CuePoint, "CueTime", 'U', false, true, "", 0, X, true},
      {ID_CueTrackPositions, ID_CuePoint, "CueTrackPositions", 'M', true, true, "", 0, X, true},
      {ID_CueTrack, ID_CueTrackPositions, "CueTrack", 'U', false, true, "", 1, X, true},
      {ID_CueClusterPosition, ID_CueTrackPositions, "CueClusterPosition", 'U', false, true, "", 0, X, true},
      {ID_CueRelativePosition, ID_CueTrackPositions, "CueRelativePosition", 'U', false, false, "", 0, X, true},
      {ID_CueDuration, ID_CueTrackPositions, "CueDuration", 'U', false, false, "", 0, X, true},
      {ID_CueBlockNumber, ID_CueTrackPositions, "CueBlockNumber", 'U', false, false, "1", 1, X, true},
      {ID_Chapters, ID_Segment, "Chapters", 'M', false, false, "", 0, X, true},
      {ID_EditionEntry, ID_Chapters, "EditionEntry", 'M', true, true, "", 0, X, true},
      {ID_ChapterAtom, ID_EditionEntry, "ChapterAtom", 'M', true, true, "", 0, X, true},
      {ID_ChapterUID, ID_ChapterAtom, "ChapterUID", 'U', false, true, "", 1, X, true},
      {ID_ChapterStringUID, ID_ChapterAtom, "ChapterStringUID", 'S', false, false, "", 0, X, true},
      {ID_ChapterTimeStart, ID_ChapterAtom, "ChapterTimeStart", 'U', false, true, "", 0, X, true},
      {ID_ChapterTimeEnd, ID_ChapterAtom, "ChapterTimeEnd", 'U', false, false, "", 0, X, true},
      {ID_ChapterDisplay, ID_ChapterAtom, "ChapterDisplay", 'M', true, false, "", 0, X, true},
      {ID_ChapterAtom, ID_ChapterAtom, "ChapterAtom", 'M', true, false, "", 0, X, true},
      {ID_ChapString, ID_ChapterDisplay, "ChapString", 'S', false, true, "", 0, X, true},
      {ID_ChapLanguage, ID_ChapterDisplay, "ChapLanguage", 'S', true, false, "eng", 0, X, true},
      {ID_ChapCountry, ID_ChapterDisplay, "ChapCountry", 'S', true, false, "", 0, X, true},
      {ID_Tags, ID_Segment, "Tags", 'M', true, false, "", 0, X, true},
      {ID_Tag, ID_Tags, "Tag", 'M', true, true, "", 0, X, true},
      {ID_Targets, ID_Tag, "Targets", 'M', false, false, "", 0, X, true},
      {ID_TargetTypeValue, ID_Targets, "TargetTypeValue", 'U', false, false, "50", 0, X, true},
      {ID_TargetType, ID_Targets, "TargetType", 'S', false, false, "", 0, X, true},
      {ID_TagTrackUID, ID_Targets, "TagTrackUID", 'U', true, false, "", 0, X, true},
      {ID_SimpleTag, ID_Tag, "SimpleTag", 'M', true, true, "", 0, X, true},
      {ID_TagName, ID_SimpleTag, "TagName", 'S', false, true, "", 0, X, true},
      {ID_TagLanguage, ID_SimpleTag, "TagLanguage", 'S', false, false, "und", 0, X, true},
      {ID_TagDefault, ID_SimpleTag, "TagDefault", 'O', false, false, "1", 0, 1, true},
      {ID_TagString, ID_SimpleTag, "TagString", 'S', false, false, "", 0, X, true},
      {ID_TagBinary, ID_SimpleTag, "TagBinary", 'B', false, false, "", 0, X, true},
      {ID_SimpleTag, ID_SimpleTag, "SimpleTag", 'M', true, false, "", 0, X, true},
  };
  return t;
}
inline const El* FindEl(uint32_t id, uint32_t parent) {
  static std::map<std::pair<uint32_t, uint32_t>, const El*> m;
  if (m.empty()) for (auto& e : Schema()) m[{e.id, e.parent}] = &e;
  auto it = m.find({id, parent});
  return it == m.end() ? nullptr : it->second;
}
inline const El* FindElAny(uint32_t id) {
  for (auto& e : Schema()) if (e.id == id) return &e;
  return nullptr;
}
inline const std::vector<const El*>& KidsOf(uint32_t parent) {
  static std::map<uint32_t, std::vector<const El*>> m;
  if (m.empty()) for (auto& e : Schema()) m[e.parent].push_back(&e);
  return m[parent];
}
inline std::string ElName(uint32_t id) {
  if (id == ID_Void) return "Void";
  const El* e = FindElAny(id);
  return e ? e->name : Fmt("?%x", id);
}

// ---------------------------------------------------------------- blocks
enum Lace { kNoLace = 0, kXiph = 1, kFixed = 2, kEbml = 3 };
struct BlockData {
  uint64_t track = 1;
  int track_len = 1;
  int16_t tc = 0;
  bool key = false, invisible = false, discardable = false;  // key/discardable: SimpleBlock only
  int lace = kNoLace;
  uint32_t lace_wide = 0;  // EBML lacing: seed for sizes coded in more bytes than needed (0 = minimal)
  std::vector<Bytes> frames;
  std::vector<uint64_t> frame_off;  // filled by Encode: offset of each frame in payload
  Bytes Encode(bool simple) {
    Bytes o;
    PutSize(&o, track, track_len);
    o.push_back((char)((uint16_t)tc >> 8));
    o.push_back((char)tc);
    uint8_t fl = (uint8_t)(lace << 1);
    // lacing bits: 00 none 01 xiph 11 ebml 10 fixed
    fl = 0;
    if (lace == kXiph) fl |= 0x02;
    if (lace == kFixed) fl |= 0x04;
    if (lace == kEbml) fl |= 0x06;
    if (invisible) fl |= 0x08;
    if (simple && key) fl |= 0x80;
    if (simple && discardable) fl |= 0x01;
    o.push_back((char)fl);
    size_t n = frames.size();
    if (lace != kNoLace) {
      o.push_back((char)(n - 1));
      if (lace == kXiph) {
        for (size_t i = 0; i + 1 < n; ++i) {
          size_t s = frames[i].size();
          while (s >= 255) { o.push_back((char)255); s -= 255; }
          o.push_back((char)s);
        }
      } else if (lace == kEbml && n > 1) {
        uint32_t w = lace_wide;
        auto wide = [&w](int len) {
          if (!w) return len;
          w = w * 1664525u + 1013904223u;
          return (w >> 30) ? len : len + (int)((w >> 16) % (uint32_t)(9 - len));
        };
        PutSize(&o, frames[0].size(), wide(SizeLen(frames[0].size())));
        for (size_t i = 1; i + 1 < n; ++i) {
          int64_t d = (int64_t)frames[i].size() - (int64_t)frames[i - 1].size();
          int len = 1;
          while (d <= -(1LL << (7 * len - 1)) || d >= (1LL << (7 * len - 1))) ++len;
          len = wide(len);
          // biased by 2^(7len-1)-1
          PutSize(&o, (uint64_t)(d + ((1LL << (7 * len - 1)) - 1)), len);
        }
      }
    }
    frame_off.clear();
    for (auto& f : frames) { frame_off.push_back(o.size()); o += f; }
    return o;
  }
};

// ---------------------------------------------------------------- tree
struct Node {
  uint32_t id = 0;
  char type = 'B';
  uint64_t u = 0;
  int64_t i = 0;
  double f = 0;
  Bytes b;  // S, B, K, X payload; for unknown elements too
  std::vector<Node> kids;
  std::shared_ptr<BlockData> blk;
  // encoding choices
  int size_len = 0;      // 0 = minimal
  bool unknown = false;  // unknown size (masters)
  int width = 0;         // payload width for U/I/F (0 = minimal / 8)
  bool zero = false;     // zero-length payload, meaning the default value
  int nulpad = 0;        // trailing NUL padding of strings
  uint64_t gap = 0;      // leaves: zero bytes that follow |b| in the payload but exist only virtually
  int tag = 0, ref = 0;  // ref: value is the segment-relative position of the node with that tag
  // filled by Layout
  uint64_t pos = 0, hdr = 0, body = 0;
  uint64_t end() const { return pos + hdr + body; }
  bool master() const { return type == 'M'; }
  const Node* kid(uint32_t kid_id) const { for (auto& k : kids) if (k.id == kid_id) return &k; return nullptr; }
  Node* kid(uint32_t kid_id) { for (auto& k : kids) if (k.id == kid_id) return &k; return nullptr; }
  std::vector<const Node*> all(uint32_t kid_id) const { std::vector<const Node*> v; for (auto& k : kids) if (k.id == kid_id) v.push_back(&k); return v; }
};
inline Node NM(uint32_t id) { Node n; n.id = id; n.type = 'M'; return n; }
inline Node NU(uint32_t id, uint64_t v, int width = 0) { Node n; n.id = id; n.type = 'U'; n.u = v; n.width = width; return n; }
inline Node NI(uint32_t id, int64_t v, int width = 0) { Node n; n.id = id; n.type = 'I'; n.i = v; n.width = width; return n; }
inline Node NF(uint32_t id, double v, int width = 8) { Node n; n.id = id; n.type = 'F'; n.f = width == 4 ? (double)(float)v : v; n.width = width; return n; }
inline Node NS(uint32_t id, const std::string& v) { Node n; n.id = id; n.type = 'S'; n.b = v; return n; }
inline Node NB(uint32_t id, const Bytes& v) { Node n; n.id = id; n.type = 'B'; n.b = v; return n; }
inline Node NK(uint32_t id, std::shared_ptr<BlockData> bd) { Node n; n.id = id; n.type = 'K'; n.blk = bd; n.b = bd->Encode(id == ID_SimpleBlock); return n; }

inline Bytes LeafPayload(const Node& n) {
  if (n.zero) return Bytes();
  switch (n.type) {
    case 'U': case 'O': return UIntBytes(n.u, n.width ? std::max(n.width, UIntLen(n.u)) : UIntLen(n.u));
    case 'I': { int w = std::max(n.width, IntLen(n.i)); return UIntBytes((uint64_t)n.i, w); }
    case 'D': return UIntBytes((uint64_t)n.i, 8);
    case 'F': return n.width == 4 ? F32((float)n.f) : F64(n.f);
    case 'S': return n.b + Bytes(n.nulpad, '\0');
    default: return n.b;
  }
}
inline void Measure(Node& n) {
  if (n.master()) {
    n.body = 0;
    for (auto& k : n.kids) { Measure(k); n.body += k.hdr + k.body; }
  } else {
    n.body = LeafPayload(n).size() + n.gap;
  }
  int sl = n.size_len;
  if (n.unknown) { if (!sl) sl = 1; }
  else if (sl < SizeLen(n.body)) sl = SizeLen(n.body);
  n.hdr = IdLen(n.id) + sl;
}
// Runs of zero bytes of a virtual file that are not stored.
struct Gaps {
  struct G { uint64_t at, virt, len; };  // stored offset, virtual offset, length
  std::vector<G> g;
  uint64_t sum = 0;
  void Add(uint64_t at, uint64_t len) { g.push_back({at, at + sum, len}); sum += len; }
  void Read(const Bytes& d, uint64_t v, uint64_t len, char* out) const {
    uint64_t shift = 0;
    size_t i = 0;
    while (len) {
      while (i < g.size() && g[i].virt + g[i].len <= v) { shift += g[i].len; ++i; }
      if (i < g.size() && v >= g[i].virt) {
        uint64_t n = std::min(len, g[i].virt + g[i].len - v);
        memset(out, 0, n); out += n; v += n; len -= n;
      } else {
        uint64_t n = i < g.size() ? std::min(len, g[i].virt - v) : len;
        memcpy(out, d.data() + (v - shift), n); out += n; v += n; len -= n;
      }
    }
  }
  const G* In(uint64_t v) const { for (auto& x : g) if (v > x.virt && v < x.virt + x.len) return &x; return nullptr; }
};
inline void Emit(Node& n, Bytes* o, Gaps* gaps) {
  n.pos = o->size() + gaps->sum;
  PutId(o, n.id);
  int sl = (int)n.hdr - IdLen(n.id);
  if (n.unknown) PutUnknownSize(o, sl); else PutSize(o, n.body, sl);
  if (n.master()) { for (auto& k : n.kids) Emit(k, o, gaps); return; }
  *o += LeafPayload(n);
  if (n.gap) gaps->Add(o->size(), n.gap);
}
inline Bytes Layout(std::vector<Node>& top, Gaps* gaps = nullptr) {
  Bytes o;
  Gaps none;
  if (!gaps) gaps = &none;
  *gaps = Gaps();
  for (auto& n : top) { Measure(n); Emit(n, &o, gaps); }
  return o;
}

// ---------------------------------------------------------------- reader
// Strict independent reader. Parses a complete buffer into a tree; any
// structural defect is recorded in |errors|.
struct Reader {
  const Bytes& d;
  std::vector<std::string> errors;
  explicit Reader(const Bytes& data) : d(data) {}
  void err(const std::string& s) { if (errors.size() < 10) errors.push_back(s); }
  bool ReadId(uint64_t* p, uint64_t end, uint32_t* id) {
    if (*p >= end) return false;
    uint8_t c = d[*p];
    int len = 0;
    for (int i = 0; i < 4; ++i) if (c & (0x80 >> i)) { len = i + 1; break; }
    if (!len || *p + len > end) return false;
    uint32_t v = 0;
    for (int i = 0; i < len; ++i) v = (v << 8) | (uint8_t)d[*p + i];
    *p += len; *id = v;
    return true;
  }
  bool ReadSize(uint64_t* p, uint64_t end, uint64_t* size, int* len_out) {
    if (*p >= end) return false;
    uint8_t c = d[*p];
    int len = 0;
    for (int i = 0; i < 8; ++i) if (c & (0x80 >> i)) { len = i + 1; break; }
    if (!len || *p + len > end) return false;
    uint64_t v = c & ((1u << (8 - len)) - 1);
    for (int i = 1; i < len; ++i) v = (v << 8) | (uint8_t)d[*p + i];
    *p += len; *len_out = len;
    *size = (v == (1ULL << (7 * len)) - 1) ? kUnknown : v;
    return true;
  }
  static uint64_t UInt(const Bytes& b) { uint64_t v = 0; for (unsigned char c : b) v = (v << 8) | c; return v; }
  void Fill(Node* n, const Bytes& pay) {
    n->b = pay;
    n->width = (int)pay.size();
    n->zero = pay.empty();
    switch (n->type) {
      case 'U': case 'O':
        if (pay.size() > 8) err(Fmt("%s: integer of %zu bytes", ElName(n->id).c_str(), pay.size()));
        n->u = UInt(pay); break;
      case 'I': case 'D': {
        if (pay.size() > 8) err("signed integer too long");
        if (n->type == 'D' && pay.size() != 0 && pay.size() != 8) err("date size");
        uint64_t v = (!pay.empty() && (pay[0] & 0x80)) ? ~0ULL : 0;
        for (unsigned char c : pay) v = (v << 8) | c;
        n->i = (int64_t)v; break;
      }
      case 'F':
        if (pay.size() == 4) { uint32_t v = (uint32_t)UInt(pay); float x; memcpy(&x, &v, 4); n->f = x; }
        else if (pay.size() == 8) { uint64_t v = UInt(pay); memcpy(&n->f, &v, 8); }
        else if (pay.size() != 0) err(Fmt("%s: float of %zu bytes", ElName(n->id).c_str(), pay.size()));
        break;
      default: break;
    }
  }
  // Returns nodes found in [p,end) as children of |parent|. For an unknown-size
  // parent, stops at the first id that cannot be its child and returns where.
  uint64_t Children(uint64_t p, uint64_t end, uint32_t parent, bool unknown, std::vector<Node>* out) {
    while (p < end) {
      uint64_t start = p, size; uint32_t id; int sl;
      if (!ReadId(&p, end, &id)) { err(Fmt("bad id at %" PRIu64 " in %s", start, ElName(parent).c_str())); return end; }
      const El* e = FindEl(id, parent);
      if (unknown && !e && id != ID_Void && id != ID_CRC32) return start;
      if (!ReadSize(&p, end, &size, &sl)) { err(Fmt("bad size at %" PRIu64, p)); return end; }
      Node n;
      n.id = id; n.pos = start; n.hdr = p - start; n.size_len = sl;
      n.type = e ? e->type : 'B';
      if (!e && id != ID_Void) err(Fmt("element %s not allowed in %s at %" PRIu64, ElName(id).c_str(), parent ? ElName(parent).c_str() : "file", start));
      if (size == kUnknown) {
        n.unknown = true;
        if (n.type != 'M') { err(Fmt("unknown size on %s", ElName(id).c_str())); return end; }
        uint64_t q = Children(p, end, id, true, &n.kids);
        n.body = q - p; p = q;
      } else {
        if (size > end - p) { err(Fmt("%s at %" PRIu64 " size %" PRIu64 " exceeds its parent by %" PRIu64, ElName(id).c_str(), start, size, size - (end - p))); return end; }
        n.body = size;
        if (n.type == 'M') Children(p, p + size, id, false, &n.kids);
        else Fill(&n, d.substr(p, size));
        p += size;
      }
      out->push_back(std::move(n));
    }
    return p;
  }
  std::vector<Node> Parse() {
    std::vector<Node> top;
    Children(0, d.size(), 0, false, &top);
    return top;
  }
};

// Decodes a Block/SimpleBlock payload strictly. Returns false if malformed.
inline bool DecodeBlock(const Bytes& p, bool simple, BlockData* bd) {
  if (p.empty()) return false;
  uint8_t c = p[0];
  int len = 0;
  for (int i = 0; i < 8; ++i) if (c & (0x80 >> i)) { len = i + 1; break; }
  if (!len || p.size() < (size_t)len + 3) return false;
  uint64_t v = c & ((1u << (8 - len)) - 1);
  for (int i = 1; i < len; ++i) v = (v << 8) | (uint8_t)p[i];
  bd->track = v; bd->track_len = len;
  bd->tc = (int16_t)(((uint8_t)p[len] << 8) | (uint8_t)p[len + 1]);
  uint8_t fl = p[len + 2];
  bd->invisible = fl & 8;
  bd->key = simple && (fl & 0x80);
  bd->discardable = simple && (fl & 1);
  int l = (fl >> 1) & 3;
  bd->lace = l == 0 ? kNoLace : l == 1 ? kXiph : l == 2 ? kFixed : kEbml;
  if (simple ? (fl & 0x70) : (fl & 0xF1)) return false;  // reserved bits
  bd->frames.clear(); bd->frame_off.clear();
  if (bd->lace == kNoLace) { bd->frames.push_back(p.substr(len + 3)); bd->frame_off.push_back(len + 3); return true; }
  return false;  // the muxer never laces
}

// Dumps a tree (for messages and equality).
inline void DumpTree(const Node& n, std::string* o, int depth = 0, bool pos = false) {
  *o += std::string(depth * 1, ' ') + ElName(n.id);
  if (pos) *o += Fmt("@%" PRIu64 "+%" PRIu64 "%s", n.pos, n.hdr + n.body, n.unknown ? "?" : "");
  switch (n.type) {
    case 'U': case 'O': *o += Fmt("=%" PRIu64, n.u); break;
    case 'I': case 'D': *o += Fmt("=%" PRId64, n.i); break;
    case 'F': *o += Fmt("=%.17g", n.f); break;
    case 'S': *o += "='" + n.b + "'"; break;
    case 'M': break;
    default: *o += Fmt(" [%zu]#%" PRIx64, n.b.size(), Hash(n.b)); break;
  }
  *o += "\n";
  for (auto& k : n.kids) DumpTree(k, o, depth + 1, pos);
}

}  // namespace vf
#endif
