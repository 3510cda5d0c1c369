// Syntax descriptions written from the standard's tables.  Each function walks one structure: in GEN mode it chooses
// values, stores them in the library's own result type (the expected result) and writes the bits; in FLAT mode it
// lists the values of a result so that expected and parsed results can be compared.
#pragma once
#include <memory>

#include "core.h"
#include "h265_aud_parser.h"
#include "h265_bitstream_parser.h"
#include "h265_bitstream_parser_state.h"
#include "h265_common.h"
#include "h265_configuration_box_parser.h"
#include "h265_hrd_parameters_parser.h"
#include "h265_nal_unit_header_parser.h"
#include "h265_nal_unit_parser.h"
#include "h265_nal_unit_payload_parser.h"
#include "h265_pps_multilayer_extension_parser.h"
#include "h265_pps_parser.h"
#include "h265_pps_scc_extension_parser.h"
#include "h265_pred_weight_table_parser.h"
#include "h265_profile_tier_level_parser.h"
#include "h265_rtp_ap_parser.h"
#include "h265_rtp_fu_parser.h"
#include "h265_rtp_parser.h"
#include "h265_rtp_single_parser.h"
#include "h265_scaling_list_data_parser.h"
#include "h265_sei_parser.h"
#include "h265_slice_parser.h"
#include "h265_sps_3d_extension_parser.h"
#include "h265_sps_multilayer_extension_parser.h"
#include "h265_sps_parser.h"
#include "h265_sps_range_extension_parser.h"
#include "h265_sps_scc_extension_parser.h"
#include "h265_st_ref_pic_set_parser.h"
#include "h265_sub_layer_hrd_parameters_parser.h"
#include "h265_utils.h"
#include "h265_vps_parser.h"
#include "h265_vui_parameters_parser.h"
#include "rtc_common.h"

namespace vh {
using namespace h265nal;

typedef H265ProfileInfoParser::ProfileInfoState PInfo;
typedef H265ProfileTierLevelParser::ProfileTierLevelState Ptl;
typedef H265SubLayerHrdParametersParser::SubLayerHrdParametersState SubHrd;
typedef H265HrdParametersParser::HrdParametersState Hrd;
typedef H265VuiParametersParser::VuiParametersState Vui;
typedef H265StRefPicSetParser::StRefPicSetState StRps;
typedef H265ScalingListDataParser::ScalingListDataState Sld;
typedef H265VpsParser::VpsState Vps;
typedef H265SpsParser::SpsState Sps;
typedef H265PpsParser::PpsState Pps;
typedef H265SpsRangeExtensionParser::SpsRangeExtensionState SpsRange;
typedef H265SpsMultilayerExtensionParser::SpsMultilayerExtensionState SpsMulti;
typedef H265Sps3dExtensionParser::Sps3dExtensionState Sps3d;
typedef H265SpsSccExtensionParser::SpsSccExtensionState SpsScc;
typedef H265PpsMultilayerExtensionParser::PpsMultilayerExtensionState PpsMulti;
typedef H265PpsSccExtensionParser::PpsSccExtensionState PpsScc;
typedef H265SliceSegmentLayerParser::SliceSegmentLayerState SliceLayer;
typedef H265SliceSegmentHeaderParser::SliceSegmentHeaderState Slice;
typedef H265PredWeightTableParser::PredWeightTableState Pwt;
typedef H265AudParser::AudState Aud;
typedef H265SeiMessageParser::SeiMessageState Sei;
typedef H265NalUnitParser::NalUnitState Nal;
typedef H265NalUnitHeaderParser::NalUnitHeaderState NalHeader;
typedef H265NalUnitPayloadParser::NalUnitPayloadState NalPayload;
typedef H265BitstreamParser::BitstreamState Stream;
typedef H265BitstreamParserState PState;
typedef std::vector<std::unique_ptr<StRps>> RpsVec;

ProfileType ref_profile(const PInfo& p);
bool is_profile_name(const std::string& shown, ProfileType t);

void syn_pinfo(IO& io, PInfo& s);
void syn_ptl(IO& io, Ptl& s, bool present, uint32_t max_sub_layers_minus1);
void syn_sub_hrd(IO& io, SubHrd& s, uint32_t id, uint32_t cnt, uint32_t subpic);
// |prev|: structure whose common part is inherited when |common| is 0 (may be null: nothing present)
void syn_hrd(IO& io, Hrd& s, uint32_t common, uint32_t max_sub_layers_minus1, const Hrd* prev = nullptr);
void syn_vui(IO& io, Vui& s, uint32_t max_sub_layers_minus1);
void syn_strps(IO& io, StRps& s, uint32_t idx, uint32_t num, const RpsVec& sets, uint32_t max_num_pics);
void syn_sld(IO& io, Sld& s);
void syn_vps(IO& io, Vps& s);
void syn_sps_range(IO& io, SpsRange& s);
void syn_sps_multi(IO& io, SpsMulti& s);
void syn_sps_3d(IO& io, Sps3d& s);
void syn_sps_scc(IO& io, SpsScc& s, uint32_t chroma_format_idc, uint32_t bit_depth_luma_minus8, uint32_t bit_depth_chroma_minus8);
void syn_sps(IO& io, Sps& s);
void syn_pps_multi(IO& io, PpsMulti& s);
void syn_pps_scc(IO& io, PpsScc& s);
void syn_pps(IO& io, Pps& s);
void syn_pwt(IO& io, Pwt& s, uint32_t chroma_array_type, uint32_t n0, uint32_t n1);
void syn_slice(IO& io, Slice& s, uint32_t nal_unit_type, const Sps& sps, const Pps& pps);
void syn_sei(IO& io, Sei& s);
void syn_aud(IO& io, Aud& s);
extern const uint32_t kSeiTypes[10];

int ceil_log2(uint64_t n);
struct SpsDims { uint64_t min_cb_log2, ctb_log2, w_min_cb, h_min_cb, w_ctb, h_ctb, samples; };
SpsDims ref_dims(const Sps& s);
uint32_t ref_chroma_array_type(const Sps& s);

// Compares an expected and a parsed structure walked by |f|; empty if equal.
template <class S, class F>
std::string compare(const S& want, const S& got, F f, std::string* key) {
  IO a, b;
  a.expected = true;
  f(a, const_cast<S&>(want));
  f(b, const_cast<S&>(got));
  return diff(a.flat, b.flat, key);
}
}  // namespace vh
