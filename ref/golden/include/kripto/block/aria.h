#ifndef KRIPTO_BLOCK_ARIA_H
#define KRIPTO_BLOCK_ARIA_H

extern const kripto_desc_block *const kripto_block_aria;

#endif
