#ifndef KRIPTO_BLOCK_IDEA_H
#define KRIPTO_BLOCK_IDEA_H

extern const kripto_desc_block *const kripto_block_idea;

#endif
