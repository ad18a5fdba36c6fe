import multiprocessing as mp
import os
import tempfile
import time
import sys
from .structure_artist import StructureArtist
from ..core import SimulationResult
from PIL import Image
_dsr_globals = {}

class ResultArtist:

    def __init__(self, step_artist: StructureArtist, result: SimulationResult):
        self._step_artist = step_artist
        self.result = result

    def _get_images(self, **kwargs):
        draw_freq = kwargs.get('draw_freq', 1)
        indices = list(range(0, len(self.result), draw_freq))
        imgs = []
        if sys.platform.startswith('win'):
            for idx in indices:
                label = f'Step {idx}'
                step_kwargs = {**kwargs, 'label': label}
                step = self.result.get_step(idx)
                img = self._step_artist.get_img(step, **step_kwargs)
                imgs.append(img)
        else:
            PROCESSES = mp.cpu_count()
            global _dsr_globals
            _dsr_globals['artist'] = self._step_artist
            with mp.get_context('fork').Pool(PROCESSES) as pool:
                params = []
                for idx in indices:
                    label = f'Step {idx}'
                    step_kwargs = {**kwargs, 'label': label}
                    step = self.result.get_step(idx)
                    params.append([step, step_kwargs])
                for img in pool.starmap(_get_img_parallel, params):
                    imgs.append(img)
        return imgs

    def jupyter_show_step(self, step_no: int, cell_size=20) -> None:
        label = f'Step {step_no}'
        step = self.result.get_step(step_no)
        self._step_artist.jupyter_show(step, label=label, cell_size=cell_size)

    def jupyter_play(self, cell_size: int=20, wait: int=1):
        from IPython.display import clear_output, display
        imgs = self._get_images(cell_size=cell_size)
        for img in imgs:
            clear_output()
            display(img)
            time.sleep(wait)

    def to_gif(self, filename: str, **kwargs) -> None:
        wait = kwargs.get('wait', 0.8)
        imgs = self._get_images(**kwargs)
        with tempfile.TemporaryDirectory() as tmp_dir:
            img_names = []
            for idx, img in enumerate(imgs):
                fname = os.path.join(tmp_dir, f'tmp_pylat_step_{idx}.png')
                img.save(fname)
                img_names.append(fname)
            reloaded_imgs = []
            for fname in img_names:
                reloaded_imgs.append(Image.open(fname))
            reloaded_imgs[0].save(filename, save_all=True, append_images=reloaded_imgs[1:], duration=wait * 1000, loop=0)

def _get_img_parallel(step, step_kwargs):
    return _dsr_globals['artist'].get_img(step, **step_kwargs)
