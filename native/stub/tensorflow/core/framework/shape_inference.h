#include "vf_tf.h"
