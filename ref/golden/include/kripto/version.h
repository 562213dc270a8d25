#ifndef KRIPTO_VERSION_H
#define KRIPTO_VERSION_H

#define KRIPTO_VERSION_MAJOR 0
#define KRIPTO_VERSION_MINOR 1
#define KRIPTO_VERSION_REVISION 0

extern const unsigned int kripto_version_major;
extern const unsigned int kripto_version_minor;
extern const unsigned int kripto_version_revision;

#endif
