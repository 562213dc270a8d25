#ifndef KRIPTO_BLOCK_RC2_H
#define KRIPTO_BLOCK_RC2_H

extern const kripto_desc_block *const kripto_block_rc2;

#endif
