/* Stands in for the protobuf-c library, which is not installed: the type that libmy/ubuf-pb.h uses. */
#ifndef PROTOBUF_C_STANDIN_H
#define PROTOBUF_C_STANDIN_H
#include <stddef.h>
#include <stdint.h>
typedef struct ProtobufCBuffer ProtobufCBuffer;
struct ProtobufCBuffer { void (*append)(ProtobufCBuffer *, size_t len, const uint8_t *data); };
#endif
