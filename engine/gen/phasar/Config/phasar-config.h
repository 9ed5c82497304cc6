#ifndef PHASAR_CONFIG_CONFIG_H
#define PHASAR_CONFIG_CONFIG_H

#define PHASAR_CONFIG_DIR ".phasar-config/"

/* #undef PAMM_CORE */
/* #undef PAMM_FULL */

#define DYNAMIC_LOG
#define BUILD_PHASAR_CLANG

#define PHASAR_HAS_SQLITE

#endif /* PHASAR_CONFIG_CONFIG_H  */
