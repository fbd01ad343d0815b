/* the little of SDL that the console uses; threads are run by the harness */
#ifndef H_SDL_H
#define H_SDL_H
typedef struct { int x, y, w, h; } h_sdl_rect;
typedef struct SDL_Thread SDL_Thread;
SDL_Thread *SDL_CreateThread(int (*f)(void *), const char *name, void *arg);
void SDL_WaitThread(SDL_Thread *t, int *r);
#endif
