// The library under test, as its C callers see it.
#pragma once
extern "C" {
#include "tracking_frame_buf.h"
#include "parameters.h"
#include "calibration.h"
#include "vec_utils.h"
#include "trafo.h"
#include "imgcoord.h"
#include "multimed.h"
#include "ray_tracing.h"
#include "epi.h"
#include "orientation.h"
#include "sortgrid.h"
#include "correspondences.h"
#include "segmentation.h"
#include "image_processing.h"
#include "track.h"
#include "tracking_run.h"
}
#undef nmax
#undef MIN
#undef MAX
