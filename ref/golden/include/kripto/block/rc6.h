#ifndef KRIPTO_BLOCK_RC6_H
#define KRIPTO_BLOCK_RC6_H

extern const kripto_desc_block *const kripto_block_rc6;

#endif
