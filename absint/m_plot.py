"""recording model of matplotlib: every drawing call ends in a list of artists of the axes it was made on"""
from .values import *


class Line(ModelObj):
    tname = 'Line2D'

    def __init__(self, kind, x, y, kw):
        self.kind, self.x, self.y, self.kw = kind, x, y, dict(kw)

    def m_get_color(self, it):
        return Unknown('colour')

    def m_get_label(self, it):
        return self.kw.get('label')

    def m_set_label(self, it, v):
        self.kw['label'] = v

    def m_get_xdata(self, it, orig=True):
        return self.x

    def m_get_ydata(self, it, orig=True):
        return self.y

    def m_set_linestyle(self, it, v):
        self.kw['ls'] = v

    def m_set_color(self, it, v):
        return None

    def m_set(self, it, **kw):
        self.kw.update(kw)


class Cycler(ModelObj):
    tname = '_process_plot_var_args'

    def m_get_next_color(self, it):
        return 'C0'

    def getattr_(self, it, name):
        if name in ('prop_cycler', 'color_cycle'):      # removed from the installed version
            it.throw(AttributeError, "'_process_plot_var_args' object has no attribute '%s'" % name)
        raise Gap("attribute %s of the line factory" % name)


class Figure(ModelObj):
    tname = 'Figure'

    def __init__(self, plot):
        self.plot, self.axs = plot, []

    def m_gca(self, it):
        if not self.axs:
            self.m_add_subplot(it)
        return self.axs[-1]

    def m_add_subplot(self, it, *a, **k):
        ax = Axes(self.plot, self)
        self.axs.append(ax)
        self.plot.cur = ax
        return ax

    def m_add_axes(self, it, *a, **k):
        if a and isinstance(a[0], Axes):
            return a[0]
        return self.m_add_subplot(it)

    def m_sca(self, it, ax):
        self.plot.cur = ax
        return ax

    def m_tight_layout(self, it, *a, **k):
        return None
    m_show = m_set_size_inches = m_suptitle = m_subplots_adjust = m_autofmt_xdate = m_tight_layout

    def m_savefig(self, it, name, *a, **k):
        it.event('write', name)

    def m_get_axes(self, it):
        return list(self.axs)

    def a_axes(self, it):
        return list(self.axs)

    def a_canvas(self, it):
        return Unknown('canvas')


class Axes(ModelObj):
    tname = 'Axes'

    def __init__(self, plot, fig):
        self.plot, self.fig = plot, fig
        self.lines, self.xl, self.yl, self.leg, self.lost = [], None, None, False, None
        plot.all.append(self)

    def a_figure(self, it):
        return self.fig

    def m_get_figure(self, it, *a, **k):
        return self.fig

    def a__get_lines(self, it):
        return Cycler()

    def a_lines(self, it):
        return list(self.lines)

    def m_get_lines(self, it):
        return list(self.lines)

    def m_plot(self, it, *a, **kw):
        a = list(a)
        if 'scalex' in kw or 'scaley' in kw:
            kw = {k: v for k, v in kw.items() if k not in ('scalex', 'scaley')}
        res = []
        while a:
            y = a.pop(0)
            x = None
            if a and not isinstance(a[0], str):
                x, y = y, a.pop(0)
            k = dict(kw)
            if a and isinstance(a[0], str):
                k['fmt'] = a.pop(0)
            res.append(self.add(it, Line('plot', x, y, k)))
        return res

    def add(self, it, ln):
        it.event('artist', (self, ln))
        self.lines.append(ln)
        return ln

    def m_add_line(self, it, ln):
        return self.add(it, ln)

    def m_axhline(self, it, y=0, xmin=0, xmax=1, **kw):
        v = y
        if isinstance(v, (list, tuple)) or (isinstance(v, Arr) and len(v.shape) > 0):
            it.throw(ValueError, "axhline() only accepts a single number")
        return self.add(it, Line('hline', None, y, kw))

    def m_hlines(self, it, y, xmin, xmax, *a, **kw):
        return self.add(it, Line('hline', None, y, kw))

    def m_scatter(self, it, x, y, *a, **kw):
        return self.add(it, Line('plot', x, y, kw))

    def m_semilogx(self, it, *a, **kw):
        self.lost = 'a logarithmic axis'
        return self.m_plot(it, *a, **kw)
    m_semilogy = m_loglog = m_semilogx

    def m_legend(self, it, *a, **kw):
        self.leg = True
        it.event('legend', (self,))
        names = kw.get('labels')
        if a and isinstance(a[-1], (list, tuple)):
            names = a[-1]
        if isinstance(names, (list, tuple)) and all(isinstance(x, str) for x in names):
            hs = a[0] if len(a) > 1 else kw.get('handles', self.lines)
            for ln, n in zip(hs, names):
                if isinstance(ln, Line):
                    ln.kw['label'] = n
        return Unknown('Legend')

    def m_set_xlabel(self, it, s, *a, **kw):
        it.event('label', (self, 'x', s))
        self.xl = s

    def m_set_ylabel(self, it, s, *a, **kw):
        it.event('label', (self, 'y', s))
        self.yl = s

    def m_get_xlabel(self, it):
        return self.xl if self.xl is not None else ''

    def m_get_ylabel(self, it):
        return self.yl if self.yl is not None else ''

    def m_set(self, it, **kw):
        if 'xlabel' in kw:
            self.m_set_xlabel(it, kw['xlabel'])
        if 'ylabel' in kw:
            self.m_set_ylabel(it, kw['ylabel'])

    def m_set_title(self, it, *a, **kw):
        return None
    m_grid = m_set_xlim = m_set_ylim = m_margins = m_autoscale = m_relim = m_autoscale_view = m_tick_params = m_set_title

    def m_get_legend(self, it):
        return Unknown('Legend') if self.leg else None

    def m_get_legend_handles_labels(self, it):
        return ([x for x in self.lines], [x.kw.get('label') for x in self.lines])

    def m_cla(self, it):
        self.lines, self.xl, self.yl = [], None, None
    m_clear = m_cla


class Plot:
    """the global state of pyplot"""

    def __init__(self):
        self.cur, self.all = None, []

    def axes(self):
        if self.cur is None:
            f = Figure(self)
            f.m_add_subplot(None)
        return self.cur


def install(mod, F, anyattr, plot):
    def gca(it, a, k):
        return plot.axes()

    def axes(it, a, k):
        if a and isinstance(a[0], Axes):
            plot.cur = a[0]
            return a[0]
        f = plot.cur.fig if plot.cur is not None else Figure(plot)
        return f.m_add_subplot(it)

    def sca(it, a, k):
        ax = a[0] if a else k['ax']
        if not isinstance(ax, Axes):
            if isinstance(ax, (Unknown, AObj)):
                raise Gap("axes object")
            it.throw(AttributeError, "object has no attribute 'figure'")
        plot.cur = ax

    def figure(it, a, k):
        f = Figure(plot)
        plot.cur = f.m_add_subplot(it)
        f.axs = []
        return f

    def gcf(it, a, k):
        return plot.axes().fig

    def subplots(it, a, k):
        if a or any(x in k for x in ('nrows', 'ncols')):
            raise Gap("subplots")
        f = Figure(plot)
        return (f, f.m_add_subplot(it))

    def subplot(it, a, k):
        return plot.axes()

    def fwd(n):
        def g(it, a, k):
            return getattr(plot.axes(), 'm_' + n)(it, *a, **k)
        return g

    def none(it, a, k):
        return None

    ns = {n: F(n, fwd(m)) for n, m in
          (('plot', 'plot'), ('axhline', 'axhline'), ('hlines', 'hlines'), ('scatter', 'scatter'), ('legend', 'legend'),
           ('semilogx', 'semilogx'), ('semilogy', 'semilogy'), ('loglog', 'loglog'),
           ('xlabel', 'set_xlabel'), ('ylabel', 'set_ylabel'), ('title', 'set_title'), ('grid', 'grid'), ('cla', 'cla'))}
    ns.update(gca=F('gca', gca), axes=F('axes', axes), sca=F('sca', sca), figure=F('figure', figure), gcf=F('gcf', gcf),
              subplots=F('subplots', subplots), subplot=F('subplot', subplot))
    for n in ('show', 'draw', 'tight_layout', 'ion', 'ioff', 'xlim', 'ylim', 'margins'):
        ns[n] = F(n, none)
    return mod('matplotlib.pyplot', ns, anyattr('matplotlib.pyplot'))


class Grid(ModelObj):
    tname = 'QgridWidget'

    def __init__(self, df, kw):
        self.df, self.kw, self.changed = df, kw, None

    def m_get_changed_df(self, it):
        return self.changed if self.changed is not None else self.df

    def m_get_selected_df(self, it):
        return self.df

    def a_df(self, it):
        return self.df


def install_qgrid(mod, F, anyattr):
    def show(it, a, k):
        p = dict(zip(['data_frame', 'show_toolbar', 'precision', 'grid_options'], a))
        p.update(k)
        g = Grid(p.pop('data_frame'), p)
        it.event('grid', (g,))
        return g
    return mod('qgrid', {'show_grid': F('show_grid', show), 'QgridWidget': Unknown('QgridWidget')}, anyattr('qgrid'))
