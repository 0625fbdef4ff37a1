import sys, time, traceback
import props, check
import run as runmod
props.load()
def run_(C, prop):
    for title, f in props.OBL[prop]:
        C.cur = title
        t0 = time.time()
        n0 = len(C.results)
        try:
            f(C)
        except check.Anchor as e:
            C.results.append(check.Res(check.BAD, title, 'public item not found: %s' % e, 'anchor:%s' % e))
        except check.Undecided as e:
            C.results.append(check.Res(check.UNK, title, str(e)))
        except (RecursionError,) as e:
            C.results.append(check.Res(check.UNK, title, 'depth'))
        for x in C.results[n0:]:
            print(' [%s] %s | %s | %s' % (x.status, x.name, x.leaf, x.detail if x.status != check.OK else ''))
        print('   %.2fs' % (time.time() - t0))
def main():
    C = check.Ctx(runmod.dump())
    for p in sys.argv[1:] or sorted(props.OBL):
        print(p)
        run_(C, p)


if __name__ == '__main__':
    import threading
    threading.stack_size(512 * 1024 * 1024)
    sys.setrecursionlimit(200000)
    t = threading.Thread(target=main)
    t.start()
    t.join()
