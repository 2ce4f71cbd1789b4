/* helpers shared by the demonstrations */
#include <buzz/buzzvm.h>
#include <buzz/buzzasm.h>
#include <buzz/buzzdebug.h>
#include <buzz/buzzparser.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static uint8_t* demo_compile(const char* src, uint32_t* size) {
   FILE* f = fopen("demo_in.bzz", "w"); fputs(src, f); fclose(f);
   char* argv[] = { "bzzparse", "demo_in.bzz", "demo_in.basm" };
   buzzparser_t p = buzzparser_new(3, argv);
   if(!p || buzzparser_parse(p) != 1) { fprintf(stderr, "parse failed\n"); exit(90); }
   buzzparser_destroy(&p);
   uint8_t* buf = NULL; buzzdebug_t d = NULL;
   if(buzz_asm("demo_in.basm", &buf, size, &d) != 0) { fprintf(stderr, "asm failed\n"); exit(91); }
   return buf;
}
static buzzvm_t demo_vm(uint16_t id, const char* src) {
   uint32_t size; uint8_t* b = demo_compile(src, &size);
   buzzvm_t vm = buzzvm_new(id);
   buzzvm_set_bcode(vm, b, size);
   while(vm->state == BUZZVM_STATE_READY) buzzvm_step(vm);
   if(vm->state != BUZZVM_STATE_DONE) { fprintf(stderr, "script failed: %s\n", buzzvm_strerror(vm)); exit(92); }
   vm->state = BUZZVM_STATE_READY;
   return vm;
}
static int demo_call(buzzvm_t vm, const char* fn) {
   buzzvm_pushs(vm, buzzvm_string_register(vm, fn, 1)); buzzvm_gload(vm);
   if(buzzvm_closure_call(vm, 0) != BUZZVM_STATE_READY) { fprintf(stderr, "%s failed: %s\n", fn, buzzvm_strerror(vm)); return 0; }
   buzzvm_pop(vm);
   return 1;
}
static buzzobj_t demo_global(buzzvm_t vm, const char* n) {
   buzzvm_pushs(vm, buzzvm_string_register(vm, n, 1)); buzzvm_gload(vm);
   buzzobj_t o = buzzvm_stack_at(vm, 1); buzzvm_pop(vm); return o;
}
static int demo_int(buzzvm_t vm, const char* n) { buzzobj_t o = demo_global(vm, n); return o->o.type == BUZZTYPE_INT ? o->i.value : -999999; }
/* moves every queued message of a to b (b may be NULL to discard) */
static int demo_send(buzzvm_t a, buzzvm_t b) {
   int n = 0;
   while(buzzoutmsg_queue_size(a) > 0) {
      buzzmsg_payload_t m = buzzoutmsg_queue_first(a);
      if(b) buzzinmsg_queue_append(b, a->robot, m); else buzzmsg_payload_destroy(&m);
      buzzoutmsg_queue_next(a); ++n;
   }
   return n;
}
