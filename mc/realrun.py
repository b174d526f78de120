"""python -m mc.realrun DIR N: process N sites with real processes into DIR/fit_db.h5"""
import sys


def get_id(a):
    return a["ID"]


def main():
    from mc import pipeline as P
    from rt1._rtprocess_writer import RT1_processor

    d, n = sys.argv[1], int(sys.argv[2])
    job = P.Job({}, "full")
    with RT1_processor.writer_pool(n_worker=2, n_combiner=1, n_writer=1, dst_path=d + "/fit_db.h5",
                                   write_chunk_size=2) as w:
        w.run_starmap(arg_list=[dict(ID=f"s{i}") for i in range(n)], process_func=job.process,
                      reader_func=job.reader, ID_getter=get_id)


if __name__ == "__main__":
    main()
